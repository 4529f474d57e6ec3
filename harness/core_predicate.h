#pragma once
// Predicates over columns, and what they say of a row.
#include <functional>
#include <set>

#include "core_literal.h"
#include "core_table.h"
#include "paimon/predicate/predicate_builder.h"

namespace cp {
using namespace ct;  // NOLINT

struct Pred {
    std::shared_ptr<Predicate> p;
    std::function<bool(const Row&)> holds;  // of a row of the columns the predicate was made for
    std::string text;
    std::set<std::string> cols;
};

// `near` gives a value worth comparing the column with
inline Pred Leaf(pbt::Case& c, const std::vector<std::string>& names, const std::vector<T>& types,
                 const std::vector<int>& usable, const std::function<Cell(int)>& near) {
    int col = usable[c.Int(0, static_cast<int64_t>(usable.size()) - 1)];
    T t = types[col];
    FieldType ft = cv::FieldTypeOf(t);
    auto lit = [&](const Cell& v) { return cv::ToLiteral(t, v); };
    Pred r;
    Cell a = near(col), b = near(col);
    std::vector<Cell> many;
    std::vector<Literal> lits;
    int op = static_cast<int>(c.Weighted({4, 2, 2, 2, 2, 2, 1, 1, 3, 2, 2}));
    if (op == 8 || op == 9) {
        for (size_t i = 0, n = c.Len(1, 24); i < n; i++) many.push_back(near(col));
        for (const auto& m : many) lits.push_back(lit(m));
    }
    const std::string& n = names[col];
    r.cols.insert(n);
    auto cmp = [t, col](const Row& row, const Cell& v) { return cv::Compare(t, row[col], v); };
    auto has = [col](const Row& row) { return !row[col].null; };
    std::string at = cv::Text(t, a);
    switch (op) {
        case 0: r.p = PredicateBuilder::Equal(col, n, ft, lit(a)); r.text = n + "=" + at;
            r.holds = [=](const Row& x) { return has(x) && cmp(x, a) == 0; }; break;
        case 1: r.p = PredicateBuilder::NotEqual(col, n, ft, lit(a)); r.text = n + "<>" + at;
            r.holds = [=](const Row& x) { return has(x) && cmp(x, a) != 0; }; break;
        case 2: r.p = PredicateBuilder::LessThan(col, n, ft, lit(a)); r.text = n + "<" + at;
            r.holds = [=](const Row& x) { return has(x) && cmp(x, a) < 0; }; break;
        case 3: r.p = PredicateBuilder::LessOrEqual(col, n, ft, lit(a)); r.text = n + "<=" + at;
            r.holds = [=](const Row& x) { return has(x) && cmp(x, a) <= 0; }; break;
        case 4: r.p = PredicateBuilder::GreaterThan(col, n, ft, lit(a)); r.text = n + ">" + at;
            r.holds = [=](const Row& x) { return has(x) && cmp(x, a) > 0; }; break;
        case 5: r.p = PredicateBuilder::GreaterOrEqual(col, n, ft, lit(a)); r.text = n + ">=" + at;
            r.holds = [=](const Row& x) { return has(x) && cmp(x, a) >= 0; }; break;
        case 6: r.p = PredicateBuilder::IsNull(col, n, ft); r.text = n + " is null";
            r.holds = [=](const Row& x) { return !has(x); }; break;
        case 7: r.p = PredicateBuilder::IsNotNull(col, n, ft); r.text = n + " is not null";
            r.holds = [=](const Row& x) { return has(x); }; break;
        case 8: r.p = PredicateBuilder::In(col, n, ft, lits); r.text = n + " in (";
            r.holds = [=](const Row& x) {
                for (const auto& m : many) if (has(x) && cmp(x, m) == 0) return true;
                return false;
            };
            break;
        case 9: r.p = PredicateBuilder::NotIn(col, n, ft, lits); r.text = n + " not in (";
            r.holds = [=](const Row& x) {
                for (const auto& m : many) if (cmp(x, m) == 0) return false;
                return has(x);
            };
            break;
        default: r.p = PredicateBuilder::Between(col, n, ft, lit(a), lit(b));
            r.text = n + " between " + at + " and " + cv::Text(t, b);
            r.holds = [=](const Row& x) { return has(x) && cmp(x, a) >= 0 && cmp(x, b) <= 0; };
    }
    if (!many.empty()) {
        for (const auto& m : many) r.text += cv::Text(t, m) + " ";
        r.text += ")";
    }
    return r;
}

inline Pred Gen(pbt::Case& c, const std::vector<std::string>& names, const std::vector<T>& types,
                const std::function<Cell(int)>& near, int depth = 2) {
    std::vector<int> usable;
    for (size_t i = 0; i < types.size(); i++) if (types[i].kids.empty()) usable.push_back(static_cast<int>(i));
    if (usable.empty()) throw pbt::Discard{};
    if (depth == 0 || c.Chance(1, 2)) return Leaf(c, names, types, usable, near);
    bool all = c.Bool();
    std::vector<std::shared_ptr<Predicate>> ps;
    std::vector<std::function<bool(const Row&)>> fs;
    Pred r;
    for (size_t i = 0, n = c.Len(2, 3); i < n; i++) {
        Pred k = Gen(c, names, types, near, depth - 1);
        ps.push_back(k.p);
        fs.push_back(k.holds);
        r.cols.insert(k.cols.begin(), k.cols.end());
        r.text += (i ? (all ? " and " : " or ") : "(") + k.text;
    }
    r.text += ")";
    UNWRAP(r.p, all ? PredicateBuilder::And(ps) : PredicateBuilder::Or(ps), "predicate");
    r.holds = [=](const Row& x) {
        for (const auto& f : fs) if (f(x) != all) return !all;
        return all;
    };
    return r;
}

}  // namespace cp
