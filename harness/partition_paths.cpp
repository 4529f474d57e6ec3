// Partition values become directory names that never collide, never leave their level, and can be
// read back.
#include <map>

#include "paimon/core/utils/partition_path_utils.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
std::string Part(Case& c) {
    std::string s;
    int64_t n = c.Len(0, 8);
    for (int64_t i = 0; i < n; i++) {
        s.push_back(static_cast<char>(c.Weighted({3, 3, 1}) == 0
                                          ? c.PickOf<int>({'a', 'b', '1', '-', '_', '.', ' ', '~', '(', ','})
                                          : c.Bool() ? c.PickOf<int>({'/', '=', '%', ':', '\\', '"', '#', '\'', '*', '?', '{',
                                                             '}', '[', ']', '^', 0x7f, 1, 10, 31, 0})
                                                     : c.Int(0, 255)));
    }
    return s;
}
int Hex(char ch) {
    return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1;
}
// what any reader of the directory tree does
bool Unescape(const std::string& s, std::string* out) {
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '%') {
            out->push_back(s[i]);
        } else {
            if (i + 2 >= s.size() || Hex(s[i + 1]) < 0 || Hex(s[i + 2]) < 0) {
                return false;
            }
            out->push_back(static_cast<char>(Hex(s[i + 1]) * 16 + Hex(s[i + 2])));
            i += 2;
        }
    }
    return true;
}
// the names other writers of the same table would give
std::string Reference(const std::string& s) {
    static const std::string special = "\"#%'*/:=?\\{}[]^\x7f";
    std::string out;
    for (char ch : s) {
        unsigned char u = static_cast<unsigned char>(ch);
        if (u < 0x20 || special.find(ch) != std::string::npos) {
            char buf[4];
            snprintf(buf, sizeof(buf), "%%%02X", u);
            out += buf;
        } else {
            out += ch;
        }
    }
    return out;
}
}  // namespace

FACET(names, 3) {
    std::string s = Part(c), t = c.Bool() ? Part(c) : s;
    c.Log() << pbt::Show(s);
    auto a = PartitionPathUtils::EscapePathName(s);
    REQUIRE(a.ok() == !s.empty(), "empty", a.status().ToString());
    if (!a.ok()) {
        return;
    }
    c.NonTrivial(a.value() != s);
    REQUIRE(a.value() == Reference(s), "name", pbt::Show(a.value()) << " want " << pbt::Show(Reference(s)));
    std::string back;
    REQUIRE(Unescape(a.value(), &back) && back == s, "read-back", pbt::Show(a.value()));
    for (char ch : a.value()) {
        REQUIRE(ch != '/' && ch != '=' && (static_cast<unsigned char>(ch) >= 0x20), "unsafe-character", static_cast<int>(ch));
    }
    auto b = PartitionPathUtils::EscapePathName(t);
    REQUIRE(!b.ok() || (a.value() == b.value()) == (s == t), "collision", pbt::Show(s) << " and " << pbt::Show(t));
}

FACET(paths, 3) {
    std::vector<std::pair<std::string, std::string>> spec;
    int64_t n = c.Len(0, 4);
    bool any_empty = false;
    for (int64_t i = 0; i < n; i++) {
        spec.emplace_back(c.Bool() ? c.PickOf<std::string>({"dt", "hh", "region"}) : Part(c), Part(c));
        any_empty = any_empty || spec.back().first.empty() || spec.back().second.empty();
    }
    auto path = PartitionPathUtils::GeneratePartitionPath(spec);
    auto levels = PartitionPathUtils::GenerateHierarchicalPartitionPaths(spec);
    c.NonTrivial(n >= 2 && !any_empty);
    REQUIRE(path.ok() == !any_empty && levels.ok() == !any_empty, "empty", path.status().ToString());
    if (any_empty) {
        return;
    }
    std::string want;
    REQUIRE(levels.value().size() == spec.size(), "levels", levels.value().size());
    for (size_t i = 0; i < spec.size(); i++) {
        want += Reference(spec[i].first) + "=" + Reference(spec[i].second) + "/";
        REQUIRE(levels.value()[i] == want, "level", pbt::Show(levels.value()[i]) << " want " << pbt::Show(want));
    }
    REQUIRE(path.value() == want, "path", pbt::Show(path.value()) << " want " << pbt::Show(want));
}
