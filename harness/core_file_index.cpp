// C11: what a file index says about a predicate is what the rows say.
#include <set>

#include "core_index_bytes.h"

using namespace ci;  // NOLINT

namespace {
using Rows = std::set<int64_t>;

std::string Text(const Rows& r) {
    std::string out = "{";
    for (int64_t x : r) out += (out.size() > 1 ? "," : "") + std::to_string(x);
    return out + "}";
}

Column GenColumn(Case& c, const std::vector<K>& kinds) {
    Column col;
    col.type.k = c.Pick(kinds);
    if (col.type.k == K::kTs) {
        col.type.p = c.PickOf<int>({0, 3, 6});
        col.type.s = c.Bool();
    }
    int space = c.PickOf<int>({3, 8, 40, 0});
    int nulls = c.PickOf<int>({0, 6, 2});
    int64_t n = c.Len(0, space == 40 ? 120 : 30);
    for (int64_t i = 0; i < n; i++) {
        if (i > 0 && c.Chance(1, 3)) col.cells.push_back(col.cells[c.Draw(i - 1)]);
        else col.cells.push_back(cv::GenCell(c, col.type, space, nulls));
    }
    return col;
}

// A value that is there, near one that is, or anything.
Cell Probe(Case& c, const Column& col) {
    if (!col.cells.empty() && c.Chance(2, 3)) {
        Cell v = col.cells[c.Draw(col.cells.size() - 1)];
        if (!v.null && cv::IsInt(col.type.k) && col.type.k != K::kBool && c.Chance(1, 3)) {
            int64_t lo = col.type.k == K::kI8 ? -128 : col.type.k == K::kI16 ? -32768 : col.type.k == K::kI64 ? INT64_MIN : INT32_MIN;
            int64_t hi = col.type.k == K::kI8 ? 127 : col.type.k == K::kI16 ? 32767 : col.type.k == K::kI64 ? INT64_MAX : INT32_MAX;
            int64_t d = c.Int(-1, 1);
            if (!(v.i == lo && d < 0) && !(v.i == hi && d > 0)) v.i += d;
        }
        if (!v.null) return v;
    }
    return cv::GenCell(c, col.type, c.PickOf<int>({3, 8, 40, 0}), 0);
}

template <typename F>
Rows Where(const Column& col, F f) {
    Rows out;
    for (size_t i = 0; i < col.cells.size(); i++) {
        if (!col.cells[i].null && f(col.cells[i])) out.insert(static_cast<int64_t>(i));
    }
    return out;
}

Rows RowsOf(Case& c, const std::shared_ptr<FileIndexResult>& r, const Column& col, bool* exact) {
    auto bitmap = std::dynamic_pointer_cast<BitmapIndexResult>(r);
    Rows out;
    *exact = bitmap != nullptr;
    UNWRAP(bool remain, r->IsRemain(), "is-remain");
    if (!bitmap) {
        for (size_t i = 0; remain && i < col.cells.size(); i++) out.insert(static_cast<int64_t>(i));
        return out;
    }
    auto got = bitmap->GetBitmap();
    if (!got.ok()) FAIL("bitmap", got.status().ToString());
    for (auto it = got.value()->Begin(); it != got.value()->End(); ++it) out.insert(*it);
    REQUIRE(remain == !out.empty(), "remain", Text(out));
    return out;
}

enum Op { kEq, kNe, kLt, kLe, kGt, kGe, kIn, kNotIn, kIsNull, kNotNull, kOps };
const char* kOpNames[] = {"=", "<>", "<", "<=", ">", ">=", "in", "not in", "is null", "is not null"};

// One question, the answer of the index and the answer of the rows.
struct Question {
    Op op;
    std::vector<Cell> args;
};

Question Ask(Case& c, const Column& col) {
    Question q;
    q.op = static_cast<Op>(c.Draw(kOps - 1));
    int64_t n = q.op == kIn || q.op == kNotIn ? c.Len(1, 5) : q.op >= kIsNull ? 0 : 1;
    for (int64_t i = 0; i < n; i++) q.args.push_back(Probe(c, col));
    return q;
}

Rows Truth(const Column& col, const Question& q) {
    const T& t = col.type;
    auto cmp = [&](const Cell& v) { return cv::Compare(t, v, q.args[0]); };
    auto in = [&](const Cell& v) {
        return std::any_of(q.args.begin(), q.args.end(), [&](const Cell& a) { return cv::Compare(t, v, a) == 0; });
    };
    switch (q.op) {
        case kEq: return Where(col, [&](const Cell& v) { return cmp(v) == 0; });
        case kNe: return Where(col, [&](const Cell& v) { return cmp(v) != 0; });
        case kLt: return Where(col, [&](const Cell& v) { return cmp(v) < 0; });
        case kLe: return Where(col, [&](const Cell& v) { return cmp(v) <= 0; });
        case kGt: return Where(col, [&](const Cell& v) { return cmp(v) > 0; });
        case kGe: return Where(col, [&](const Cell& v) { return cmp(v) >= 0; });
        case kIn: return Where(col, in);
        case kNotIn: return Where(col, [&](const Cell& v) { return !in(v); });
        case kNotNull: return Where(col, [](const Cell&) { return true; });
        default: {
            Rows out;
            for (size_t i = 0; i < col.cells.size(); i++) {
                if (col.cells[i].null) out.insert(static_cast<int64_t>(i));
            }
            return out;
        }
    }
}

Result<std::shared_ptr<FileIndexResult>> Answer(FileIndexReader* r, const Column& col, const Question& q) {
    std::vector<Literal> lits;
    for (const auto& a : q.args) lits.push_back(cv::ToLiteral(col.type, a));
    switch (q.op) {
        case kEq: return r->VisitEqual(lits[0]);
        case kNe: return r->VisitNotEqual(lits[0]);
        case kLt: return r->VisitLessThan(lits[0]);
        case kLe: return r->VisitLessOrEqual(lits[0]);
        case kGt: return r->VisitGreaterThan(lits[0]);
        case kGe: return r->VisitGreaterOrEqual(lits[0]);
        case kIn: return r->VisitIn(lits);
        case kNotIn: return r->VisitNotIn(lits);
        case kIsNull: return r->VisitIsNull();
        default: return r->VisitIsNotNull();
    }
}

std::string Say(const Column& col, const Question& q) {
    std::string s = std::string("column ") + kOpNames[q.op];
    for (const auto& a : q.args) s += " " + cv::Text(col.type, a);
    return s;
}

std::string Describe(const Column& col) {
    std::string s = cv::ToArrow(col.type)->ToString() + ":";
    for (const auto& v : col.cells) s += " " + cv::Text(col.type, v);
    return s;
}

// The index may keep rows that do not match unless it says which rows do; it never drops one that does.
void Questions(Case& c, FileIndexReader* r, const Column& col, int64_t n, const std::set<Op>& exact_ops) {
    std::vector<std::pair<Question, std::shared_ptr<FileIndexResult>>> pending;
    for (int64_t i = 0; i < n; i++) {
        Question q = Ask(c, col);
        auto a = Answer(r, col, q);
        if (!a.ok()) FAIL("answer", Say(col, q) << ": " << a.status().ToString());
        pending.emplace_back(q, a.value());
        if (c.Chance(1, 4)) continue;  // answered later, when others have been
        while (!pending.empty()) {
            auto [pq, pa] = pending.back();
            pending.pop_back();
            bool exact = false;
            Rows got = RowsOf(c, pa, col, &exact), want = Truth(col, pq);
            if (exact_ops.count(pq.op)) REQUIRE(exact, "row-level", Say(col, pq));
            if (exact) {
                REQUIRE(got == want, "rows", Say(col, pq) << ": " << Text(got) << " want " << Text(want) << "\n" << Describe(col));
            } else {
                REQUIRE(std::includes(got.begin(), got.end(), want.begin(), want.end()), "lost",
                        Say(col, pq) << " drops " << Text(want) << "\n" << Describe(col));
            }
            c.Eval(1);
        }
    }
}

// Bytes somewhere in a longer file.
struct File {
    std::string all;
    std::unique_ptr<char[]> exact;
    int32_t start = 0, length = 0;
    std::shared_ptr<InputStream> Open() {
        exact.reset(new char[all.size()]);
        memcpy(exact.get(), all.data(), all.size());
        return std::make_shared<ByteArrayInputStream>(exact.get(), all.size());
    }
};
File Place(Case& c, const std::string& bytes) {
    File f;
    f.start = static_cast<int32_t>(c.PickOf<int64_t>({0, 1, 7, 300}));
    f.length = static_cast<int32_t>(bytes.size());
    f.all = c.Bytes(f.start) + bytes + c.Bytes(c.PickOf<int64_t>({0, 5}));
    return f;
}

const std::set<Op> kExactBitmap = {kEq, kNe, kIn, kNotIn, kIsNull, kNotNull};
const std::set<Op> kExactBsi = {kEq, kNe, kLt, kLe, kGt, kGe, kIn, kNotIn, kIsNull, kNotNull};

std::shared_ptr<FileIndexReader> Open(Case& c, const char* kind, const Column& col, File* f) {
    UNWRAP(auto indexer, FileIndexerFactory::Get(kind, {}), "indexer");
    ::ArrowSchema cs;
    auto r = indexer->CreateReader(Schema(col, &cs), f->start, f->length, f->Open(), GetDefaultPool());
    if (!r.ok()) FAIL("open", r.status().ToString());
    return r.value();
}
}  // namespace

FACET(bitmap, 5) {
    Column col = GenColumn(c, kBitmapKinds);
    auto opts = BitmapOptions(c, col);
    c.Log() << Describe(col) << " version " << opts["version"] << " block " << opts["index-block-size"];
    if (opts["version"].empty()) opts.erase("version");
    if (opts["index-block-size"].empty()) opts.erase("index-block-size");
    c.NonTrivial(col.cells.size() >= 4);
    File f = Place(c, BitmapBytes(c, col, opts));
    auto r = Open(c, "bitmap", col, &f);
    Questions(c, r.get(), col, c.Len(1, 10), kExactBitmap);
}

FACET(bsi, 4) {
    Column col = GenColumn(c, kBsiKinds);
    for (auto& v : col.cells) v.i = v.i == INT64_MIN ? INT64_MIN + 1 : v.i;
    c.Log() << Describe(col);
    c.NonTrivial(col.cells.size() >= 4);
    File f = Place(c, BsiBytes(c, col));
    auto r = Open(c, "bsi", col, &f);
    Questions(c, r.get(), col, c.Len(1, 10), kExactBsi);
}

FACET(bloom, 3) {
    Column col = GenColumn(c, kBloomKinds);
    c.Log() << Describe(col);
    int k = static_cast<int>(c.Chance(1, 12) ? c.Int(120, 300) : c.Int(1, 12));
    int32_t bytes = static_cast<int32_t>(c.PickOf<int64_t>({1, 2, 8, 64, 1000}));
    std::string body = BloomBytes(col, k, bytes), bits = body.substr(4);
    File f = Place(c, body);
    auto r = Open(c, "bloom-filter", col, &f);
    c.NonTrivial(col.cells.size() >= 3);
    for (int i = 0; i < 6; i++) {
        Cell v = Probe(c, col);
        bool all = true;
        for (int32_t b : BitsOf(HashOf(col.type, v), k, bytes * 8)) all &= (bits[b / 8] >> (b % 8)) & 1;
        auto a = r->VisitEqual(cv::ToLiteral(col.type, v));
        if (!a.ok()) FAIL("answer", a.status().ToString());
        UNWRAP(bool remain, a.value()->IsRemain(), "is-remain");
        REQUIRE(remain == all, "bloom", cv::Text(col.type, v) << " kept " << remain << " want " << all);
    }
    auto null = r->VisitEqual(Literal(cv::FieldTypeOf(col.type)));
    if (!null.ok()) FAIL("null", null.status().ToString());
    UNWRAP(bool kept, null.value()->IsRemain(), "is-remain");
    REQUIRE(kept, "null", "nothing is known about nulls");
    Questions(c, r.get(), col, 4, {});
}

namespace {
struct Container {
    std::vector<Column> cols;
    std::vector<std::vector<Entry>> entries;
    std::string bytes;
};
Container GenContainer(Case& c) {
    Container k;
    int64_t n = c.Len(0, 3);
    for (int64_t i = 0; i < n; i++) {
        Column col = GenColumn(c, kBsiKinds);
        col.name = "f" + std::to_string(i);
        for (auto& v : col.cells) v.i = v.i == INT64_MIN ? INT64_MIN + 1 : v.i;
        std::vector<Entry> es;
        if (c.Chance(2, 3)) es.push_back({"bitmap", BitmapBytes(c, col, BitmapOptions(c, col))});
        if (c.Bool()) es.push_back({"bsi", BsiBytes(c, col)});
        if (c.Chance(1, 4)) es.push_back({"unheard-of", c.Bytes(c.Int(0, 9))});
        if (col.cells.empty() && c.Bool()) es = {{"bitmap", "", true}};
        k.cols.push_back(col);
        k.entries.push_back(es);
    }
    std::vector<std::string> names;
    for (auto& col : k.cols) names.push_back(col.name);
    k.bytes = ContainerBytes(names, k.entries);
    return k;
}
::ArrowSchema* AllColumns(const Container& k, ::ArrowSchema* out) {
    arrow::FieldVector f;
    for (auto& col : k.cols) f.push_back(arrow::field(col.name, cv::ToArrow(col.type)));
    f.push_back(arrow::field("plain", arrow::int32()));
    CV_OK(arrow::ExportSchema(*arrow::schema(f), out));
    return out;
}
}  // namespace

// Several columns with several indexes each in one file.
FACET(container, 3) {
    Container k = GenContainer(c);
    File f;
    f.all = k.bytes;
    UNWRAP(auto reader, FileIndexFormat::CreateReader(f.Open(), GetDefaultPool()), "container");
    c.NonTrivial(k.cols.size() >= 2);
    for (int64_t round = 0; round < 2 && !k.cols.empty(); round++) {
        size_t i = c.Draw(k.cols.size() - 1);
        c.Log() << Describe(k.cols[i]) << "; ";
        ::ArrowSchema cs;
        UNWRAP(auto readers, reader->ReadColumnIndex(k.cols[i].name, AllColumns(k, &cs)), "column");
        size_t want = 0;
        for (auto& e : k.entries[i]) want += e.kind != "unheard-of";
        REQUIRE(readers.size() == want, "readers", readers.size() << " want " << want);
        for (auto& r : readers) Questions(c, r.get(), k.cols[i], 3, {});
    }
    ::ArrowSchema cs;
    UNWRAP(auto none, reader->ReadColumnIndex("plain", AllColumns(k, &cs)), "no-index");
    REQUIRE(none.empty(), "no-index", none.size());
    REQUIRE(!reader->ReadColumnIndex("missing", AllColumns(k, &cs)).ok(), "missing-column", "");
}

// A file cut short or with a damaged head is refused or answers something; nothing is thrown and
// nothing beyond it is read.
FACET(damaged, 3) {
    Container k = GenContainer(c);
    std::string s = k.bytes;
    if (c.Bool()) {
        s.resize(c.Draw(s.size() - 1));
        c.Log() << "cut to " << s.size() << " of " << k.bytes.size() << "; ";
    } else {
        // magic, version, length of the head, number of columns
        size_t at = c.Draw(19);
        char was = s[at];
        s[at] = static_cast<char>(c.PickOf<int>({0, 1, 0x7f, 0x80, 0xff, static_cast<int>(c.Draw(255))}));
        c.Log() << "byte " << at << " is " << static_cast<int>(s[at]) << " not " << static_cast<int>(was) << "; ";
    }
    c.NonTrivial(!k.cols.empty());
    File f;
    f.all = s;
    try {
        auto reader = FileIndexFormat::CreateReader(f.Open(), GetDefaultPool());
        if (s.size() < 20 || s.substr(0, 12) != k.bytes.substr(0, 12)) REQUIRE(!reader.ok(), "accepted", "");
        if (!reader.ok()) return;
        for (auto& col : k.cols) {
            ::ArrowSchema cs;
            auto readers = reader.value()->ReadColumnIndex(col.name, AllColumns(k, &cs));
            if (!readers.ok()) continue;
            for (auto& r : readers.value()) {
                for (int i = 0; i < 4; i++) {
                    Question q = Ask(c, col);
                    c.Log() << Say(col, q) << "; ";
                    auto a = Answer(r.get(), col, q);
                    if (!a.ok()) continue;
                    auto remain = a.value()->IsRemain();
                    if (!remain.ok()) continue;
                    auto b = std::dynamic_pointer_cast<BitmapIndexResult>(a.value());
                    if (!b) continue;
                    bool exact;
                    REQUIRE(RowsOf(c, b, col, &exact) == Truth(col, q), "wrong", Say(col, q) << "\n" << Describe(col));
                }
            }
        }
    } catch (const std::exception& e) {
        FAIL("thrown", e.what());
    }
}

// An index said to be longer or shorter than it is, or somewhere else.
FACET(misplaced, 1) {
    bool bsi = c.Bool();
    Column col = GenColumn(c, bsi ? kBsiKinds : kBloomKinds);
    for (auto& v : col.cells) v.i = v.i == INT64_MIN ? INT64_MIN + 1 : v.i;
    File f;
    f.all = bsi ? BsiBytes(c, col) : Big(3, 4) + c.Bytes(c.PickOf<int64_t>({1, 8, 60}));
    int64_t n = static_cast<int64_t>(f.all.size());
    f.start = 0;
    f.length = static_cast<int32_t>(c.PickOf<int64_t>({c.Int(0, n - 1), n + c.Int(1, 300), -1, INT32_MIN, INT32_MAX, 3}));
    if (!bsi && f.length >= 5 && f.length <= n) f.length = 4;
    if (c.Chance(1, 4)) f.start = static_cast<int32_t>(c.PickOf<int64_t>({-1, n + 1, INT32_MAX, INT32_MIN}));
    c.Log() << (bsi ? "bsi" : "bloom") << " of " << n << " bytes, start " << f.start << " length " << f.length;
    c.NonTrivial();
    if (f.start == 0 && f.length == n) throw pbt::Discard{};
    UNWRAP(auto indexer, FileIndexerFactory::Get(bsi ? "bsi" : "bloom-filter", {}), "indexer");
    ::ArrowSchema cs;
    try {
        auto r = indexer->CreateReader(Schema(col, &cs), f.start, f.length, f.Open(), GetDefaultPool());
        REQUIRE(!r.ok(), "accepted", "");
    } catch (const std::exception& e) {
        FAIL("thrown", e.what());
    }
}

namespace {
// Fails one of the reads.
struct Failing : InputStream {
    std::shared_ptr<InputStream> in;
    int64_t left;
    Status Seek(int64_t o, SeekOrigin w) override { return in->Seek(o, w); }
    Result<int64_t> GetPos() const override { return in->GetPos(); }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (left-- == 0) return Status::IOError("no");
        return in->Read(b, n);
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t o) override {
        if (left-- == 0) return Status::IOError("no");
        return in->Read(b, n, o);
    }
    void ReadAsync(char* b, uint32_t n, uint64_t o, std::function<void(Status)>&& cb) override { in->ReadAsync(b, n, o, std::move(cb)); }
    Status Close() override { return in->Close(); }
    Result<std::string> GetUri() const override { return in->GetUri(); }
    Result<uint64_t> Length() const override { return in->Length(); }
};
}  // namespace

// A read that fails makes that question fail, and leaves the next ones right.
FACET(failing_read, 2) {
    Column col = GenColumn(c, kBitmapKinds);
    auto opts = BitmapOptions(c, col);
    c.Log() << Describe(col);
    c.NonTrivial(col.cells.size() >= 4);
    File f = Place(c, BitmapBytes(c, col, opts));
    auto in = std::make_shared<Failing>();
    in->in = f.Open();
    in->left = c.Int(0, 6);
    UNWRAP(auto indexer, FileIndexerFactory::Get("bitmap", {}), "indexer");
    ::ArrowSchema cs;
    auto r = indexer->CreateReader(Schema(col, &cs), f.start, f.length, in, GetDefaultPool());
    if (!r.ok()) FAIL("open", r.status().ToString());
    for (int64_t i = 0; i < 8; i++) {
        Question q = Ask(c, col);
        bool before = in->left >= 0;
        auto a = Answer(r.value().get(), col, q);
        if (!a.ok()) FAIL("answer", a.status().ToString());
        auto remain = a.value()->IsRemain();
        bool failed = before && in->left < 0;
        REQUIRE(remain.ok() || failed, "error", remain.status().ToString());
        if (!remain.ok()) continue;
        bool exact = false;
        Rows got = RowsOf(c, a.value(), col, &exact), want = Truth(col, q);
        if (exact) REQUIRE(got == want, "rows", Say(col, q) << ": " << Text(got) << " want " << Text(want));
    }
}

// Nanoseconds are kept in these indexes as microseconds: the answer may be too wide, not too narrow.
FACET(nanos, 1) {
    Column col;
    col.type.k = K::kTs;
    col.type.p = 9;
    int64_t base = c.Int(-5000, 5000) * 1000;
    for (int64_t i = 0, n = c.Len(1, 12); i < n; i++) {
        col.cells.push_back(c.Chance(1, 6) ? cv::Null() : cv::I(base + c.Int(0, 2500)));
    }
    c.Log() << Describe(col);
    bool bitmap = c.Bool();
    std::string bytes;
    if (bitmap) {
        bytes = BitmapBytes(c, col, BitmapOptions(c, col));
    } else {
        Column micros = col;
        for (auto& v : micros.cells) v.i = v.i >= 0 ? v.i / 1000 : -((-v.i + 999) / 1000);
        bytes = BsiBytes(c, micros);
    }
    File f = Place(c, bytes);
    auto r = Open(c, bitmap ? "bitmap" : "bsi", col, &f);
    c.NonTrivial(col.cells.size() >= 3);
    for (int i = 0; i < 4; i++) {
        Question q = Ask(c, col);
        auto a = Answer(r.get(), col, q);
        if (!a.ok()) FAIL("answer", a.status().ToString());
        bool exact = false;
        Rows got = RowsOf(c, a.value(), col, &exact), want = Truth(col, q);
        bool wide = std::includes(got.begin(), got.end(), want.begin(), want.end());
        bool strict = q.op == kNe || q.op == kNotIn || q.op == kLt || q.op == kGt;
        REQUIRE(wide, strict ? "lost" : "lost-inclusive",
                (bitmap ? "bitmap: " : "bsi: ") << Say(col, q) << " gives " << Text(got) << " want " << Text(want));
    }
}
