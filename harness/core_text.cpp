// C13: texts, paths, sizes and durations mean what their documentation says.
#include <cctype>
#include <cmath>
#include <cstring>

#include "paimon/common/fs/external_path_provider.h"
#include "paimon/common/options/memory_size.h"
#include "paimon/common/options/time_duration.h"
#include "paimon/common/utils/options_utils.h"
#include "paimon/common/utils/path_util.h"
#include "paimon/common/utils/string_utils.h"
#include "paimon/fs/file_system.h"
#include "pbt.h"

using namespace paimon;  // NOLINT
using pbt::Case;
using pbt::Show;

namespace {
std::string Few(Case& c, int64_t max, const char* letters = "aab, ") {
    std::string s;
    for (int64_t i = 0, n = c.Len(0, max); i < n; i++) s += letters[c.Draw(std::strlen(letters) - 1)];
    return s;
}
using i128 = __int128;
// Digits only, no sign; nullopt above 10^30.
std::optional<i128> Digits(const std::string& s) {
    if (s.empty()) return {};
    i128 v = 0;
    for (char ch : s) {
        if (ch < '0' || ch > '9') return {};
        if (v < static_cast<i128>(1) << 100) v = v * 10 + (ch - '0');
    }
    return v;
}
std::string Lower(std::string s) {
    for (auto& ch : s)
        if (ch >= 'A' && ch <= 'Z') ch += 32;
    return s;
}
std::string MixCase(Case& c, std::string s) {
    for (auto& ch : s)
        if (ch >= 'a' && ch <= 'z' && c.Chance(1, 3)) ch -= 32;
    return s;
}
std::string Number(Case& c) {
    switch (c.Weighted({4, 2, 3, 2, 1})) {
        case 0: return std::to_string(c.Draw(2000));
        case 1: return std::to_string(c.I32());
        case 2: {
            static const std::vector<std::string> edges = {"127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768",
                "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
                "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                "18446744073709551615", "18446744073709551616", "00", "007", "-0", "+1", "--1", "-", "1e3", "0x10", "1.0", "99999999999999999999999"};
            return edges[c.Draw(edges.size() - 1)];
        }
        case 3: return std::to_string(c.I64());
        default: return Few(c, 5, "0123456789-+ ");
    }
}
template <typename T>
void CheckInt(Case& c, const std::string& s) {
    std::optional<i128> want;
    bool minus = !s.empty() && s[0] == '-';
    if (!(minus && std::is_unsigned_v<T>)) want = Digits(minus ? s.substr(1) : s);
    if (want && minus) want = -*want;
    if (want && (*want < static_cast<i128>(std::numeric_limits<T>::min()) || *want > static_cast<i128>(std::numeric_limits<T>::max()))) want.reset();
    auto got = StringUtils::StringToValue<T>(s);
    REQUIRE(got.has_value() == want.has_value(), "int", Show(s) << " " << sizeof(T));
    if (got) REQUIRE(static_cast<i128>(*got) == *want, "int-value", Show(s) << " " << sizeof(T));
    std::map<std::string, std::string> m{{"k", s}};
    auto r = OptionsUtils::GetValueFromMap<T>(m, "k");
    REQUIRE(r.ok() == want.has_value(), "option", Show(s));
    if (r.ok()) REQUIRE(static_cast<i128>(r.value()) == *want, "option-value", Show(s));
    auto d = OptionsUtils::GetValueFromMap<T>(m, "k", T(3));
    REQUIRE(d.ok() == want.has_value() && (!d.ok() || static_cast<i128>(d.value()) == *want), "option-default", Show(s));
    if (!r.ok()) REQUIRE(r.status().IsInvalid() && d.status().IsInvalid(), "option-error", r.status().ToString());
    auto a = OptionsUtils::GetValueFromMap<T>(m, "j");
    REQUIRE(!a.ok() && a.status().IsNotExist(), "option-absent", "");
    auto b = OptionsUtils::GetValueFromMap<T>(m, "j", T(3));
    REQUIRE(b.ok() && b.value() == T(3), "option-absent-default", "");
}
}  // namespace

FACET(replace, 2) {
    std::string text = Few(c, 12), find = Few(c, 3), with = Few(c, 4);
    int32_t max = c.Bool() ? -1 : static_cast<int32_t>(c.Draw(4));
    c.NonTrivial(text.size() >= 3);
    c.Log() << Show(text) << " " << Show(find) << " " << Show(with) << " " << max;
    std::string want;
    int32_t done = 0;
    for (size_t i = 0; i < text.size();) {
        if (!find.empty() && (max == -1 || done < max) && text.substr(i, find.size()) == find) {
            want += with;
            i += find.size();
            done++;
        } else {
            want += text[i++];
        }
    }
    std::string got = StringUtils::Replace(text, find, with, max);
    REQUIRE(got == want, "replace", Show(got) << " want " << Show(want));
    if (max == -1) REQUIRE(StringUtils::Replace(text, find, with) == want, "replace-all", "");
    if (!find.empty()) {
        std::string last = text;
        for (size_t i = text.size() + 1; i-- > 0;) {
            if (i + find.size() <= text.size() && std::equal(find.begin(), find.end(), text.begin() + i)) {
                last = text.substr(0, i) + with + text.substr(i + find.size());
                break;
            }
        }
        REQUIRE(StringUtils::ReplaceLast(text, find, with) == last, "replace-last", Show(last));
    }
}

FACET(pieces, 2) {
    std::string text = Few(c, 14), sep = Few(c, 2), pre = Few(c, 3);
    c.NonTrivial(text.size() >= 3);
    c.Log() << Show(text) << " " << Show(sep) << " " << Show(pre);
    std::vector<std::string> all, some;
    if (sep.empty()) {
        all = some = {text};
    } else {
        std::string cur;
        for (size_t i = 0; i < text.size();) {
            if (text.compare(i, sep.size(), sep) == 0) {
                all.push_back(cur);
                cur.clear();
                i += sep.size();
            } else {
                cur += text[i++];
            }
        }
        all.push_back(cur);
        for (auto& s : all)
            if (!s.empty()) some.push_back(s);
    }
    REQUIRE(StringUtils::Split(text, sep, false) == all, "split", "");
    REQUIRE(StringUtils::Split(text, sep, true) == some && StringUtils::Split(text, sep) == some, "split-some", "");
    auto nested = StringUtils::Split(text, sep, std::string(","));
    REQUIRE(nested.size() == some.size(), "split-two", "");
    for (size_t i = 0; i < some.size(); i++) REQUIRE(nested[i] == StringUtils::Split(some[i], ","), "split-two-part", i);
    REQUIRE(StringUtils::StartsWith(text, pre) == (text.substr(0, pre.size()) == pre), "starts", "");
    size_t from = c.Draw(text.size());
    REQUIRE(StringUtils::StartsWith(text, pre, from) == (text.substr(from, pre.size()) == pre), "starts-at", from);
    REQUIRE(StringUtils::EndsWith(text, pre) == (text.size() >= pre.size() && text.substr(text.size() - pre.size()) == pre), "ends", "");
    std::string t = text;
    StringUtils::Trim(&t);
    std::string w = text;
    while (!w.empty() && w.back() == ' ') w.pop_back();
    while (!w.empty() && w.front() == ' ') w.erase(0, 1);
    REQUIRE(t == w, "trim", Show(t));
    std::string bytes = c.Bytes(c.Int(0, 6));
    bool blank = true;
    for (char ch : bytes) blank = blank && std::strchr(" \t\n\v\f\r", ch) && ch;
    REQUIRE(StringUtils::IsNullOrWhitespaceOnly(bytes) == blank, "blank", Show(bytes));
    std::string ws = Few(c, 4, " \t\n\r\v\fa");
    REQUIRE(StringUtils::IsNullOrWhitespaceOnly(ws) == (ws.find('a') == std::string::npos), "blank", Show(ws));
    std::string up = bytes, low = bytes;
    for (auto& ch : up)
        if (ch >= 'a' && ch <= 'z') ch -= 32;
    REQUIRE(StringUtils::ToUpperCase(bytes) == up && StringUtils::ToLowerCase(bytes) == Lower(low), "case", Show(bytes));
}

FACET(numbers, 4) {
    std::string s = Number(c);
    c.NonTrivial(s.size() >= 2);
    c.Log() << Show(s);
    CheckInt<int8_t>(c, s);
    CheckInt<int16_t>(c, s);
    CheckInt<int32_t>(c, s);
    CheckInt<int64_t>(c, s);
    CheckInt<uint8_t>(c, s);
    CheckInt<uint16_t>(c, s);
    CheckInt<uint32_t>(c, s);
    CheckInt<uint64_t>(c, s);
}

FACET(words, 1) {
    static const std::vector<std::string> words = {"t", "true", "y", "yes", "1", "f", "false", "n", "no", "0", "", "tr", "10", "on", "off", "null", " true", "true ", "yess"};
    int64_t k = c.Draw(words.size() - 1);
    std::string s = MixCase(c, words[k]);
    c.NonTrivial(s.size() > 1);
    auto got = StringUtils::StringToValue<bool>(s);
    REQUIRE(got.has_value() == (k < 10), "bool", Show(s));
    if (got) REQUIRE(*got == (k < 5), "bool-value", Show(s));
    // A finite number written with enough digits comes back; anything after it is refused.
    uint64_t bits = c.Sub().Next();
    double d;
    std::memcpy(&d, &bits, 8);
    if (!std::isnormal(d)) d = static_cast<double>(c.I32()) / 7;
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", d);
    auto back = StringUtils::StringToValue<double>(buf);
    REQUIRE(back && *back == d, "double", buf);
    REQUIRE(!StringUtils::StringToValue<double>(std::string(buf) + c.PickOf<const char*>({"x", " ", "..", ",1"})), "double-rest", buf);
    float f = static_cast<float>(c.I32()) / 7;
    snprintf(buf, sizeof buf, "%.9g", f);
    auto fb = StringUtils::StringToValue<float>(buf);
    REQUIRE(fb && *fb == f, "float", buf);
    REQUIRE(!StringUtils::StringToValue<double>("") && !StringUtils::StringToValue<float>("abc"), "float-none", "");
    std::string any = c.Bytes(c.Int(0, 5));
    REQUIRE(StringUtils::StringToValue<std::string>(any) == any, "string", "");
}

FACET(sizes, 3) {
    struct Unit {
        const char* name;
        i128 times, over;
    };
    static const i128 k = 1024;
    static const std::vector<Unit> sizes = {{"", 1, 1}, {"b", 1, 1}, {"bytes", 1, 1}, {"k", k, 1}, {"kb", k, 1}, {"kibibytes", k, 1},
        {"m", k * k, 1}, {"mb", k * k, 1}, {"mebibytes", k * k, 1}, {"g", k * k * k, 1}, {"gb", k * k * k, 1}, {"gibibytes", k * k * k, 1},
        {"t", k * k * k * k, 1}, {"tb", k * k * k * k, 1}, {"tebibytes", k * k * k * k, 1}};
    static const std::vector<Unit> times = {{"", 1, 1}, {"ns", 1, 1000000}, {"nano", 1, 1000000}, {"nanos", 1, 1000000},
        {"nanosecond", 1, 1000000}, {"nanoseconds", 1, 1000000}, {"us", 1, 1000}, {"\xc2\xb5s", 1, 1000}, {"micro", 1, 1000},
        {"micros", 1, 1000}, {"microsecond", 1, 1000}, {"microseconds", 1, 1000}, {"ms", 1, 1}, {"milli", 1, 1}, {"millis", 1, 1},
        {"millisecond", 1, 1}, {"milliseconds", 1, 1}, {"s", 1000, 1}, {"sec", 1000, 1}, {"secs", 1000, 1}, {"second", 1000, 1},
        {"seconds", 1000, 1}, {"min", 60000, 1}, {"m", 60000, 1}, {"minute", 60000, 1}, {"minutes", 60000, 1}, {"h", 3600000, 1},
        {"hour", 3600000, 1}, {"hours", 3600000, 1}, {"d", 86400000, 1}, {"day", 86400000, 1}, {"days", 86400000, 1}};
    static const std::vector<std::string> odd = {"x", "bb", "kbs", "p", "byte", "msec", "mins2", "hrs", "-", "5", "\t", "k b"};
    bool time = c.Bool();
    auto& units = time ? times : sizes;
    bool good = !c.Chance(1, 6);
    const Unit& u = units[c.Draw(units.size() - 1)];
    std::string name = good ? MixCase(c, u.name) : c.Pick(odd);
    const i128 top = std::numeric_limits<int64_t>::max();
    std::string number;
    switch (c.Weighted({3, 3, 1})) {
        case 0: number = std::to_string(c.Draw(100000)); break;
        case 1: {  // at the edge of what fits
            i128 edge = (u.over == 1 ? top / u.times : top) + c.Int(-1, 1);
            uint64_t low = static_cast<uint64_t>(edge);
            number = std::to_string(low);
            break;
        }
        default: number = c.PickOf<const char*>({"", "-1", "1.5", "9223372036854775807", "9223372036854775808", "99999999999999999999", "a"});
    }
    std::string text = Few(c, 2, " ") + number + Few(c, 2, " ") + name + Few(c, 2, " ");
    c.NonTrivial(text.size() > 2);
    c.Log() << (time ? "time " : "size ") << Show(text);
    std::optional<i128> want;
    // "1 5" and the like: a unit that starts with a digit right after the number belongs to the number.
    if (!good) {
        std::string t = text;
        t.erase(0, t.find_first_not_of(' ') == std::string::npos ? t.size() : t.find_first_not_of(' '));
        while (!t.empty() && t.back() == ' ') t.pop_back();
        auto v = Digits(t);
        if (v && *v <= top) want = v;
    } else if (auto v = Digits(number); v && *v <= top) {
        i128 r = *v * u.times / u.over;
        if (r <= top) want = r;
    }
    auto got = time ? TimeDuration::Parse(text) : MemorySize::ParseBytes(text);
    REQUIRE(got.ok() == want.has_value(), "size", Show(text) << " " << got.status().ToString());
    if (got.ok()) REQUIRE(got.value() == *want, "size-value", Show(text) << " " << got.value());
    else REQUIRE(got.status().IsInvalid(), "size-error", got.status().ToString());
}

FACET(dates, 1) {
    // Days from the calendar, by counting.
    int64_t y = c.Int(1, 9999), m = c.Int(1, 12);
    auto leap = [](int64_t v) { return (v % 4 == 0 && v % 100 != 0) || v % 400 == 0; };
    static const int lens[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int64_t d = c.Int(1, lens[m - 1] + (m == 2 && leap(y)));
    int64_t days = d - 1;
    for (int64_t i = 1; i < m; i++) days += lens[i - 1] + (i == 2 && leap(y));
    auto before = [](int64_t v) { return (v - 1) * 365 + (v - 1) / 4 - (v - 1) / 100 + (v - 1) / 400; };
    days += before(y) - before(1970);
    char buf[32];
    snprintf(buf, sizeof buf, "%04d-%02d-%02d", static_cast<int>(y), static_cast<int>(m), static_cast<int>(d));
    c.NonTrivial();
    c.Log() << buf;
    UNWRAP(int32_t got, StringUtils::StringToDate(buf), "date");
    REQUIRE(got == days, "date-value", got << " want " << days);
    UNWRAP(int32_t plain, StringUtils::StringToDate(std::to_string(days)), "date-number");
    REQUIRE(plain == days, "date-number-value", plain);
    for (const char* bad : {"", "x", "2020", "2020-13-01", "2020/01/01"}) {
        if (std::string(bad) == "2020") continue;  // a number of days
        REQUIRE(!StringUtils::StringToDate(bad).ok(), "date-bad", bad);
    }
}

FACET(paths, 4) {
    // Built from its parts, so the parts are known.
    std::string scheme = c.PickOf<const char*>({"", "", "file", "oss", "HDFS", "dfs", "s3a"});
    std::string authority = scheme.empty() ? "" : c.PickOf<const char*>({"", "b", "host:80", "u@h"});
    std::vector<std::string> parts;
    for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) parts.push_back(c.PickOf<const char*>({"a", "b=1", "x.y", "t", "c:d", "..", " "}));
    bool absolute = !scheme.empty() || c.Bool();
    auto slashes = [&] { return std::string(c.Chance(1, 3) ? 2 + c.Draw(1) : 1, '/'); };
    std::string inner, text;
    bool net = !authority.empty() || (!scheme.empty() && c.Bool());
    if (!scheme.empty()) text = scheme + ":";
    if (net) text += "//" + authority;
    std::string raw;
    for (size_t i = 0; i < parts.size(); i++) {
        if (i || absolute) {
            inner += "/";
            raw += i == 0 && !net ? "/" : slashes();  // two slashes at the start would begin an authority
        }
        inner += parts[i];
        raw += parts[i];
    }
    if (parts.empty()) {
        if (absolute) inner = raw = "/";
    } else if (c.Bool()) {
        raw += slashes();
    }
    text += raw;
    if (text.empty()) {
        REQUIRE(PathUtil::ToPath("").status().IsInvalid() && PathUtil::NormalizePath("").status().IsInvalid(), "empty", "");
        return;
    }
    if (!absolute && text.find(':') < text.find('/')) throw pbt::Discard{};  // reads as a scheme
    c.NonTrivial(parts.size() >= 2);
    c.Log() << Show(text);
    UNWRAP(Path p, PathUtil::ToPath(text), "path");
    REQUIRE(p.scheme == scheme && p.authority == authority && p.path == inner, "path-parts", p.scheme << "|" << p.authority << "|" << p.path << " want " << scheme << "|" << authority << "|" << inner);
    std::string normal = (scheme.empty() ? "" : scheme + ":") + (authority.empty() ? "" : "//" + authority) + inner;
    REQUIRE(p.ToString() == normal, "path-text", p.ToString());
    UNWRAP(std::string n1, PathUtil::NormalizePath(text), "normal");
    REQUIRE(n1 == normal, "normal-text", n1);
    UNWRAP(std::string n2, PathUtil::NormalizePath(n1), "normal-again");
    REQUIRE(n2 == n1, "normal-stable", n2);
    std::string ls = Lower(scheme);
    UNWRAP(bool store, FileSystem::IsObjectStore(text), "store");
    REQUIRE(store == !(ls.empty() || ls == "file" || ls == "hdfs" || ls == "dfs"), "store-kind", Show(text));
    if (parts.empty()) return;
    REQUIRE(PathUtil::GetName(normal) == parts.back() && PathUtil::GetName(normal + "/") == parts.back(), "name", PathUtil::GetName(normal));
    std::string trimmed = normal + "/";
    PathUtil::TrimLastDelim(&trimmed);
    REQUIRE(trimmed == normal, "trim", trimmed);
    if (parts.size() >= 2) {
        std::string parent = normal.substr(0, normal.size() - parts.back().size() - 1);
        REQUIRE(PathUtil::GetParentDirPath(normal) == parent && PathUtil::GetParentDirPath(normal + "/") == parent &&
                    PathUtil::GetParentDirPath(parent + "///" + parts.back() + "//") == parent, "parent", PathUtil::GetParentDirPath(normal));
        for (const char* a : {"", "/"})
            for (const char* b : {"", "/"})
                REQUIRE(PathUtil::JoinPath(parent + a, b + parts.back()) == normal, "join", PathUtil::JoinPath(parent + a, b + parts.back()));
        REQUIRE(PathUtil::JoinPath(normal, "") == normal && PathUtil::JoinPath("", normal) == normal, "join-empty", "");
        UNWRAP(std::string t1, PathUtil::CreateTempPath(normal), "temp");
        UNWRAP(std::string t2, PathUtil::CreateTempPath(normal), "temp");
        REQUIRE(t1 != t2 && t1 != normal, "temp-unique", t1);
        REQUIRE(PathUtil::GetParentDirPath(t1) == parent, "temp-dir", t1);
        std::string leaf = PathUtil::GetName(t1);
        REQUIRE(leaf[0] == '.' && leaf.find(parts.back()) != std::string::npos, "temp-name", leaf);
    }
}

FACET(external, 1) {
    std::vector<std::string> roots;
    for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) roots.push_back("/r" + std::to_string(i) + (c.Bool() ? "/" : ""));
    auto made = ExternalPathProvider::Create(roots, "bucket-0");
    REQUIRE(made.ok() == !roots.empty(), "external", made.status().ToString());
    if (!made.ok()) return;
    auto p = std::move(made).value();
    c.NonTrivial(roots.size() > 1);
    std::map<std::string, int> seen;
    int64_t rounds = c.Int(1, 3);
    for (int64_t i = 0; i < rounds * static_cast<int64_t>(roots.size()); i++) {
        std::string got = p->GetNextExternalDataPath("f" + std::to_string(i));
        std::string root = got.substr(0, got.find("/bucket-0/"));
        REQUIRE(got == root + "/bucket-0/f" + std::to_string(i), "external-path", got);
        seen[root]++;
    }
    REQUIRE(seen.size() == roots.size(), "external-all", seen.size());
    for (auto& [r, k] : seen) REQUIRE(k == rounds, "external-even", r << " " << k);
}
