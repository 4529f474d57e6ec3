// C18: a predicate says the same of a row however it is asked, never denies rows it has only the
// statistics of, and keeps its meaning when negated, split or moved to other columns.
#include <map>
#include <set>

#include "core_predicate.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/predicate/literal_converter.h"
#include "paimon/common/predicate/predicate_filter.h"
#include "paimon/common/predicate/predicate_utils.h"
#include "paimon/common/predicate/predicate_validator.h"

using namespace ct;  // NOLINT
using cp::Pred;

namespace {

struct World {
    std::vector<std::string> names;
    std::vector<T> types;
    std::vector<Row> rows;
    std::shared_ptr<arrow::StructArray> array;
    std::shared_ptr<arrow::Schema> schema;
};

std::shared_ptr<arrow::Schema> SchemaOf(const std::vector<std::string>& names, const std::vector<T>& types) {
    std::vector<std::shared_ptr<arrow::Field>> fs;
    for (size_t i = 0; i < types.size(); i++) fs.push_back(cv::ToField(names[i], types[i], true));
    return arrow::schema(fs);
}

World GenWorld(pbt::Case& c) {
    World w;
    for (size_t i = 0, n = c.Len(1, 4); i < n; i++) {
        w.names.push_back("f" + std::to_string(i));
        w.types.push_back(cv::GenAtom(c));
    }
    int nulls = c.PickOf<int>({0, 2, 6});
    int space = c.PickOf<int>({0, 3, 8});
    bool sticky = c.Chance(1, 3);
    for (size_t i = 0, n = c.Len(1, 12); i < n; i++) {
        Row r;
        for (size_t k = 0; k < w.types.size(); k++) {
            if (sticky && i > 0 && c.Chance(2, 3)) r.push_back(w.rows[i - 1][k]);
            else r.push_back(cv::GenCell(c, w.types[k], space, nulls));
        }
        w.rows.push_back(r);
    }
    w.array = cv::MakeStruct(w.names, w.types, w.rows);
    w.schema = SchemaOf(w.names, w.types);
    return w;
}

Cell Near(pbt::Case& c, const World& w, int col) {
    Cell v = w.rows[c.Int(0, static_cast<int64_t>(w.rows.size()) - 1)][col];
    if (v.null || c.Chance(1, 3)) v = cv::GenCell(c, w.types[col], c.PickOf<int>({0, 3, 8}), 0);
    else if (cv::IsInt(w.types[col].k) && w.types[col].k != cv::K::kBool && c.Chance(1, 3)) {
        int64_t d = c.Bool() ? 1 : -1;
        if (v.i > -100 && v.i < 100) v.i += d;
    } else if (cv::IsText(w.types[col].k) && c.Chance(1, 4)) {
        v.s += c.Ascii(1);
    }
    return v;
}

BinaryRow ToBinary(const std::vector<T>& types, const Row& row) {
    auto pool = GetDefaultPool();
    BinaryRow out(static_cast<int32_t>(types.size()));
    BinaryRowWriter w(&out, 0, pool.get());
    w.Reset();
    for (size_t i = 0; i < types.size(); i++) {
        auto at = static_cast<int32_t>(i);
        const T& t = types[i];
        const Cell& v = row[i];
        if (v.null) {
            if (t.k == cv::K::kDec && t.p > 18) w.WriteDecimal(at, std::nullopt, t.p);
            else if (t.k == cv::K::kTs && t.p > 3) w.WriteTimestamp(at, std::nullopt, t.p);
            else w.SetNullAt(at);
            continue;
        }
        switch (t.k) {
            case cv::K::kBool: w.WriteBoolean(at, v.i != 0); break;
            case cv::K::kI8: w.WriteByte(at, static_cast<int8_t>(v.i)); break;
            case cv::K::kI16: w.WriteShort(at, static_cast<int16_t>(v.i)); break;
            case cv::K::kI32:
            case cv::K::kDate: w.WriteInt(at, static_cast<int32_t>(v.i)); break;
            case cv::K::kI64: w.WriteLong(at, v.i); break;
            case cv::K::kF32: w.WriteFloat(at, static_cast<float>(v.d)); break;
            case cv::K::kF64: w.WriteDouble(at, v.d); break;
            case cv::K::kTs: w.WriteTimestamp(at, cv::ToTimestamp(t, v.i), t.p); break;
            case cv::K::kDec: w.WriteDecimal(at, Decimal(t.p, t.s, v.i), t.p); break;
            default: {
                Bytes b(v.s, pool.get());
                w.WriteBinary(at, b);
            }
        }
    }
    w.Complete();
    return out;
}

std::shared_ptr<PredicateFilter> Filter(pbt::Case& c, const std::shared_ptr<Predicate>& p) {
    auto f = std::dynamic_pointer_cast<PredicateFilter>(p);
    REQUIRE(f != nullptr, "filter", "not a filter");
    return f;
}

// what the predicate says of every row, asked both ways
std::vector<bool> Ask(pbt::Case& c, const World& w, const std::shared_ptr<Predicate>& p, const char* tag) {
    auto f = Filter(c, p);
    UNWRAP(auto all, f->Test(*w.array), tag);
    REQUIRE(all.size() == w.rows.size(), tag, all.size() << " answers for " << w.rows.size() << " rows");
    std::vector<bool> r;
    for (size_t i = 0; i < w.rows.size(); i++) {
        BinaryRow row = ToBinary(w.types, w.rows[i]);
        UNWRAP(bool one, f->Test(w.schema, row), tag);
        REQUIRE(one == (all[i] != 0), tag, p->ToString() << " says " << one << " of row " << i << " alone and " << int(all[i]) << " within a batch");
        r.push_back(one);
    }
    c.Eval(static_cast<int>(w.rows.size()));
    return r;
}

// what is known of a range of rows
struct Known {
    Row min, max;
    std::vector<std::optional<int64_t>> nulls;
};

Known Collect(pbt::Case& c, const World& w, size_t from, size_t to) {
    Known k;
    for (size_t col = 0; col < w.types.size(); col++) {
        Cell lo = cv::Null(), hi = cv::Null();
        int64_t n = 0;
        for (size_t i = from; i < to; i++) {
            const Cell& v = w.rows[i][col];
            if (v.null) { n++; continue; }
            if (lo.null || cv::Compare(w.types[col], v, lo) < 0) lo = v;
            if (hi.null || cv::Compare(w.types[col], v, hi) > 0) hi = v;
        }
        switch (c.Weighted({6, 1, 1, 1, 1})) {
            case 0: break;
            case 1: lo = cv::Null(); break;
            case 2: hi = cv::Null(); break;
            case 3: lo = hi = cv::Null(); break;
            default: k.nulls.push_back(std::nullopt);
        }
        if (k.nulls.size() == col) k.nulls.push_back(n);
        k.min.push_back(lo);
        k.max.push_back(hi);
    }
    return k;
}

bool AskKnown(pbt::Case& c, const World& w, const Known& k, int64_t count, const std::shared_ptr<Predicate>& p) {
    BinaryRow min = ToBinary(w.types, k.min), max = ToBinary(w.types, k.max);
    BinaryArray nulls;
    BinaryArrayWriter out(&nulls, static_cast<int32_t>(k.nulls.size()), 8, GetDefaultPool().get());
    for (size_t i = 0; i < k.nulls.size(); i++) {
        if (k.nulls[i]) out.WriteLong(static_cast<int32_t>(i), *k.nulls[i]);
        else out.SetNullValue<int64_t>(static_cast<int32_t>(i));
    }
    out.Complete();
    auto f = Filter(c, p);
    UNWRAP(bool may, f->Test(w.schema, count, min, max, nulls), "stats");
    return may;
}

}  // namespace

FACET(rows, 10) {
    World w = GenWorld(c);
    Pred p = cp::Gen(c, w.names, w.types, [&](int col) { return Near(c, w, col); }, 3);
    c.Log() << p.text << "\n";
    for (const auto& r : w.rows) c.Log() << cv::Text(w.types, r) << "\n";
    REQUIRE_OK(PredicateValidator::ValidatePredicateWithLiterals(p.p), "valid");
    REQUIRE_OK(PredicateValidator::ValidatePredicateWithSchema(*w.schema, p.p, true), "valid");
    auto said = Ask(c, w, p.p, "rows");
    int hits = 0;
    for (size_t i = 0; i < w.rows.size(); i++) {
        bool want = p.holds(w.rows[i]);
        hits += want;
        REQUIRE(said[i] == want, "rows", p.p->ToString() << " says " << said[i] << " of " << cv::Text(w.types, w.rows[i]));
    }
    // the negation is true of no row the predicate is true of, and of all others with no nulls
    auto n = p.p->Negate();
    REQUIRE(n != nullptr, "negate", "no negation of " << p.p->ToString());
    auto not_said = Ask(c, w, n, "negate");
    for (size_t i = 0; i < w.rows.size(); i++) {
        bool full = true;
        for (const auto& v : w.rows[i]) full &= !v.null;
        REQUIRE(!(said[i] && not_said[i]), "negate", p.p->ToString() << " and " << n->ToString() << " are both true of " << cv::Text(w.types, w.rows[i]));
        REQUIRE(!full || said[i] != not_said[i], "negate", p.p->ToString() << " and " << n->ToString() << " are both false of " << cv::Text(w.types, w.rows[i]));
    }
    auto back = n->Negate();
    REQUIRE(back && *back == *p.p && !(*n == *p.p), "negate", "negating " << p.p->ToString() << " twice gives " << (back ? back->ToString() : "nothing"));
    // statistics of some of the rows
    for (int k = 0; k < 3; k++) {
        size_t from = c.Int(0, static_cast<int64_t>(w.rows.size()) - 1);
        size_t to = from + c.Int(1, static_cast<int64_t>(w.rows.size() - from));
        Known known = Collect(c, w, from, to);
        for (int neg = 0; neg < 2; neg++) {
            const auto& q = neg ? n : p.p;
            const auto& s = neg ? not_said : said;
            if (AskKnown(c, w, known, static_cast<int64_t>(to - from), q)) continue;
            for (size_t i = from; i < to; i++) {
                REQUIRE(!s[i], "stats", q->ToString() << " is denied of rows " << from << " to " << to << " but true of row " << i << ": " << cv::Text(w.types, w.rows[i]));
            }
        }
        c.Eval(2);
    }
    c.NonTrivial(hits > 0 && hits < static_cast<int>(w.rows.size()));
}

// one column, exact statistics: a single comparison is denied as soon as no value can match
FACET(denied, 4) {
    World w;
    w.names = {"f"};
    w.types = {cv::GenAtom(c)};
    const T& t = w.types[0];
    int64_t count = c.Int(1, 5), null = c.Chance(1, 3) ? c.Int(0, count) : 0;
    Cell a = cv::GenCell(c, t, c.PickOf<int>({0, 4}), 0), b = cv::GenCell(c, t, c.PickOf<int>({0, 4}), 0);
    if (c.Chance(1, 4)) b = a;
    if (cv::Compare(t, a, b) > 0) std::swap(a, b);
    if (null == count) a = b = cv::Null();
    w.rows = {{a}, {b}};
    w.schema = SchemaOf(w.names, w.types);
    Pred p = cp::Leaf(c, w.names, w.types, {0}, [&](int) {
        return Near(c, w, 0);
    });
    if (p.p->GetFunction().GetType() == Function::Type::AND) return;
    Known k;
    k.min = {a};
    k.max = {b};
    k.nulls = {null};
    c.Log() << p.text << " min " << cv::Text(t, a) << " max " << cv::Text(t, b) << " nulls " << null << " of " << count << "\n";
    bool may = AskKnown(c, w, k, count, p.p);
    // ends and nulls are values of the rows; a true answer for one of them is a match
    bool match = false;
    if (null < count) match = p.holds({a}) || p.holds({b});
    if (null > 0) match |= p.holds({cv::Null()});
    REQUIRE(may || !match, "denied", p.p->ToString() << " is denied although an end matches");
    // with one value only nothing lies between the ends
    if (null == count || cv::Compare(t, a, b) == 0) {
        REQUIRE(may == match, "single", p.p->ToString() << " is not denied although no value matches");
    }
    auto type = p.p->GetFunction().GetType();
    if (!match && null < count && type != Function::Type::EQUAL && type != Function::Type::IN) {
        // neither end matches, so nothing between them does
        if (type != Function::Type::NOT_EQUAL && type != Function::Type::NOT_IN) {
            REQUIRE(!may, "range", p.p->ToString() << " is not denied although neither end matches");
        }
    }
    c.NonTrivial(!may);
}

FACET(parts, 5) {
    World w = GenWorld(c);
    Pred p = cp::Gen(c, w.names, w.types, [&](int col) { return Near(c, w, col); }, 3);
    c.Log() << p.text << "\n";
    auto said = Ask(c, w, p.p, "parts");
    auto split = PredicateUtils::SplitAnd(p.p);
    std::vector<bool> all(w.rows.size(), true);
    for (const auto& s : split) {
        REQUIRE(s->GetFunction().GetType() != Function::Type::AND, "split", "a part is a conjunction: " << s->ToString());
        auto x = Ask(c, w, s, "split");
        for (size_t i = 0; i < all.size(); i++) all[i] = all[i] && x[i];
    }
    REQUIRE(all == said, "split", "the parts of " << p.p->ToString() << " together say otherwise");
    std::set<std::string> used, some;
    REQUIRE_OK(PredicateUtils::GetAllNames(p.p, &used), "names");
    for (const auto& n : w.names) {
        bool in = p.cols.count(n) > 0;
        REQUIRE(in == (used.count(n) > 0), "names", n << (in ? " is missing" : " is not used"));
        if (c.Bool()) some.insert(n);
    }
    UNWRAP(bool any, PredicateUtils::ContainAnyField(p.p, some), "names");
    bool want_any = false;
    for (const auto& n : some) want_any |= used.count(n) > 0;
    REQUIRE(any == want_any, "names", "contains any of " << some.size() << " columns: " << any);
    auto uses = [&](const std::shared_ptr<Predicate>& q) {
        std::set<std::string> u;
        REQUIRE_OK(PredicateUtils::GetAllNames(q, &u), "names");
        return u;
    };
    // without the parts that use some columns
    UNWRAP(auto less, PredicateUtils::ExcludePredicateWithFields(p.p, some), "exclude");
    size_t kept = 0;
    std::vector<bool> rest(w.rows.size(), true);
    for (const auto& s : split) {
        bool hit = false;
        for (const auto& n : uses(s)) hit |= some.count(n) > 0;
        if (hit) continue;
        kept++;
        auto x = Ask(c, w, s, "exclude");
        for (size_t i = 0; i < rest.size(); i++) rest[i] = rest[i] && x[i];
    }
    REQUIRE((less == nullptr) == (kept == 0), "exclude", "of " << kept << " parts " << (less ? less->ToString() : "nothing") << " is left");
    if (less) {
        REQUIRE(Ask(c, w, less, "exclude") == rest, "exclude", less->ToString() << " is not what is left of " << p.p->ToString());
        for (const auto& n : uses(less)) REQUIRE(!some.count(n), "exclude", n << " is still used by " << less->ToString());
    }
    // the parts over other columns, moved there
    std::map<std::string, int32_t> to;
    World m;
    std::vector<int> order;
    for (size_t i = 0; i < w.names.size(); i++) if (!some.count(w.names[i])) order.insert(order.begin() + c.Int(0, static_cast<int64_t>(order.size())), static_cast<int>(i));
    m.rows.resize(w.rows.size());
    for (int i : order) {
        to[w.names[i]] = static_cast<int32_t>(m.names.size());
        m.names.push_back(w.names[i]);
        m.types.push_back(w.types[i]);
        for (size_t r = 0; r < w.rows.size(); r++) m.rows[r].push_back(w.rows[r][i]);
    }
    UNWRAP(auto moved, PredicateUtils::CreatePickedFieldFilter(p.p, to), "moved");
    REQUIRE((moved == nullptr) == (kept == 0), "moved", "of " << kept << " parts " << (moved ? moved->ToString() : "nothing") << " is moved");
    if (moved) {
        m.array = cv::MakeStruct(m.names, m.types, m.rows);
        m.schema = SchemaOf(m.names, m.types);
        REQUIRE_OK(PredicateValidator::ValidatePredicateWithSchema(*m.schema, moved, true), "moved");
        REQUIRE(Ask(c, m, moved, "moved") == rest, "moved", moved->ToString() << " is not what is left of " << p.p->ToString());
    }
    REQUIRE(PredicateUtils::SplitAnd(nullptr).empty(), "none", "");
    REQUIRE(!PredicateBuilder::And({}).ok() && !PredicateBuilder::Or({}).ok(), "none", "a predicate of nothing is made");
    c.NonTrivial(split.size() > 1);
}

FACET(refused, 3) {
    World w = GenWorld(c);
    Pred p = cp::Gen(c, w.names, w.types, [&](int col) { return Near(c, w, col); }, 2);
    // a leaf that does not fit, somewhere in the predicate
    int col = static_cast<int>(c.Int(0, static_cast<int64_t>(w.names.size()) - 1));
    const T& t = w.types[col];
    auto lit = cv::ToLiteral(t, Near(c, w, col));
    FieldType ft = cv::FieldTypeOf(t), other = ft == FieldType::INT ? FieldType::BIGINT : FieldType::INT;
    Literal wrong = ft == FieldType::INT ? Literal(int64_t{5}) : Literal(int32_t{5});
    std::shared_ptr<Predicate> bad;
    bool by_literal = false, by_place = false;
    int kind = static_cast<int>(c.Int(0, 5));
    switch (kind) {
        case 0: bad = PredicateBuilder::Equal(col, w.names[col], ft, Literal(ft)); by_literal = true; break;
        case 1: bad = PredicateBuilder::In(col, w.names[col], ft, {lit, wrong}); by_literal = true; break;
        case 2: bad = PredicateBuilder::LessThan(col, "missing", ft, lit); break;
        case 3: bad = PredicateBuilder::GreaterThan(col, w.names[col], other, wrong); break;
        case 4: bad = PredicateBuilder::NotEqual(col + 1, w.names[col], ft, lit); by_place = true; break;
        default: bad = PredicateBuilder::IsNull(col, w.names[col], other); break;
    }
    std::shared_ptr<Predicate> whole = bad;
    for (int d = static_cast<int>(c.Int(0, 2)); d > 0; d--) {
        std::vector<std::shared_ptr<Predicate>> ps = {p.p, whole};
        if (c.Bool()) std::swap(ps[0], ps[1]);
        UNWRAP(whole, c.Bool() ? PredicateBuilder::And(ps) : PredicateBuilder::Or(ps), "predicate");
    }
    bool lits = PredicateValidator::ValidatePredicateWithLiterals(whole).ok();
    bool fits = PredicateValidator::ValidatePredicateWithSchema(*w.schema, whole, true).ok();
    bool fits_any = PredicateValidator::ValidatePredicateWithSchema(*w.schema, whole, false).ok();
    REQUIRE(lits == !by_literal, "literals", whole->ToString() << " literals said to " << (lits ? "" : "not ") << "fit");
    REQUIRE(fits == by_literal, "schema", whole->ToString() << " said to " << (fits ? "" : "not ") << "fit");
    REQUIRE(fits_any == (by_literal || by_place), "schema", whole->ToString() << " said to " << (fits_any ? "" : "not ") << "fit anywhere");
    if (kind == 0) {
        for (bool b : Ask(c, w, bad, "null")) REQUIRE(!b, "null", "a value equals nothing");
        for (bool b : Ask(c, w, bad->Negate(), "null")) REQUIRE(!b, "null", "a value differs from nothing");
    }
    // a column the row does not have
    auto far = PredicateBuilder::Equal(static_cast<int32_t>(w.names.size() + c.Int(0, 2)), "far", ft, lit);
    auto f = Filter(c, far);
    REQUIRE(!f->Test(*w.array).ok(), "far", "a column beyond the last is compared");
    BinaryRow row = ToBinary(w.types, w.rows[0]);
    REQUIRE(!f->Test(w.schema, row).ok(), "far", "a column beyond the last is compared");
    c.NonTrivial();
}

FACET(literals, 4) {
    T t = cv::GenAtom(c);
    std::vector<Cell> cells;
    for (int i = 0; i < 3; i++) cells.push_back(cv::GenCell(c, t, c.PickOf<int>({0, 3}), 5));
    std::vector<Literal> lits;
    for (const auto& v : cells) lits.push_back(cv::ToLiteral(t, v));
    for (size_t i = 0; i < 3; i++) {
        for (size_t j = 0; j < 3; j++) {
            auto r = lits[i].CompareTo(lits[j]);
            if (cells[i].null != cells[j].null) {
                REQUIRE(!r.ok(), "null", "a value is ordered with nothing");
                REQUIRE(!(lits[i] == lits[j]), "equal", "a value equals nothing");
                continue;
            }
            REQUIRE(r.ok(), "compare", r.status().ToString());
            int want = cv::Compare(t, cells[i], cells[j]);
            REQUIRE((r.value() > 0) - (r.value() < 0) == want, "compare", lits[i].ToString() << " to " << lits[j].ToString() << " is " << r.value());
            if (want == 0) {
                REQUIRE(lits[i] == lits[j], "equal", lits[i].ToString() << " differs from itself");
                REQUIRE(lits[i].HashCode() == lits[j].HashCode(), "hash", lits[i].ToString() << " has two hashes");
            } else if (!cv::IsFloat(t.k)) {
                REQUIRE(!(lits[i] == lits[j]) && lits[i] != lits[j], "equal", lits[i].ToString() << " equals " << lits[j].ToString());
            }
        }
        // copies and moves
        auto same = [&](const Literal& x, const char* how) {
            REQUIRE(x.GetType() == cv::FieldTypeOf(t) && x.IsNull() == cells[i].null, "copy", how);
            auto r = x.CompareTo(cv::ToLiteral(t, cells[i]));
            REQUIRE(r.ok() && r.value() == 0 && x.HashCode() == lits[i].HashCode() && x.ToString() == lits[i].ToString(), "copy", how << " of " << lits[i].ToString() << " is " << x.ToString());
        };
        Literal copy(lits[i]);
        same(copy, "copy");
        Literal set = lits[(i + 1) % 3];
        set = copy;
        same(set, "assigned copy");
        Literal moved(std::move(copy));
        same(moved, "moved");
        Literal into = lits[(i + 2) % 3];
        into = std::move(moved);
        same(into, "assigned move");
        const Literal& self = into;
        into = self;
        same(into, "self assigned");
    }
    auto w = cv::MakeStruct({"f"}, {t}, {{cells[0]}, {cells[1]}, {cells[2]}});
    for (bool own : {false, true}) {
        std::vector<Literal> from;
        {
            auto a = cv::MakeStruct({"f"}, {t}, {{cells[0]}, {cells[1]}, {cells[2]}});
            UNWRAP(from, LiteralConverter::ConvertLiteralsFromArray(own ? *a->field(0) : *w->field(0), own), "array");
        }
        REQUIRE(from.size() == 3, "array", from.size() << " literals of 3 values");
        for (size_t i = 0; i < 3; i++) {
            REQUIRE(from[i].IsNull() == cells[i].null && from[i].GetType() == cv::FieldTypeOf(t), "array", "of " << lits[i].ToString());
            auto r = from[i].CompareTo(lits[i]);
            REQUIRE(r.ok() && r.value() == 0, "array", lits[i].ToString() << " becomes " << from[i].ToString());
        }
    }
    Literal strange(t.k == cv::K::kBool ? Literal(int32_t{1}) : Literal(true));
    REQUIRE(!strange.CompareTo(lits[0]).ok() && !(strange == lits[0]), "type", "values of two types are ordered or equal");
    c.NonTrivial(!cells[0].null);
}
