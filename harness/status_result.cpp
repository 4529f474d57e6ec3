// Errors and results keep code, message, detail and value through copies, moves and assignments.
#include <memory>
#include <optional>

#include "paimon/result.h"
#include "paimon/status.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
class Detail : public StatusDetail {
 public:
    explicit Detail(std::string s) : s_(std::move(s)) {}
    const char* type_id() const override {
        return "detail";
    }
    std::string ToString() const override {
        return s_;
    }

 private:
    std::string s_;
};
class OtherDetail : public Detail {
 public:
    using Detail::Detail;
    const char* type_id() const override {
        return "other";
    }
};
struct MStatus {
    StatusCode code = StatusCode::OK;
    std::string msg;
    std::string detail;
    bool has_detail = false;
    bool operator==(const MStatus& o) const {
        return code == o.code && msg == o.msg && detail == o.detail && has_detail == o.has_detail;
    }
};
const std::vector<StatusCode> kCodes = {
    StatusCode::OutOfMemory,  StatusCode::KeyError,      StatusCode::TypeError,      StatusCode::Invalid,
    StatusCode::IOError,      StatusCode::CapacityError, StatusCode::IndexError,     StatusCode::UnknownError,
    StatusCode::NotImplemented, StatusCode::SerializationError, StatusCode::NotExist, StatusCode::Exist};
Status Named(StatusCode code, const std::string& msg) {
    switch (code) {
        case StatusCode::OutOfMemory:
            return Status::OutOfMemory(msg);
        case StatusCode::KeyError:
            return Status::KeyError(msg);
        case StatusCode::TypeError:
            return Status::TypeError(msg);
        case StatusCode::Invalid:
            return Status::Invalid(msg);
        case StatusCode::IOError:
            return Status::IOError(msg);
        case StatusCode::CapacityError:
            return Status::CapacityError(msg);
        case StatusCode::IndexError:
            return Status::IndexError(msg);
        case StatusCode::UnknownError:
            return Status::UnknownError(msg);
        case StatusCode::NotImplemented:
            return Status::NotImplemented(msg);
        case StatusCode::SerializationError:
            return Status::SerializationError(msg);
        case StatusCode::NotExist:
            return Status::NotExist(msg);
        default:
            return Status::Exist(msg);
    }
}
Status Make(Case& c, MStatus* m) {
    *m = MStatus();
    if (c.Chance(1, 4)) {
        return Status::OK();
    }
    m->code = c.Pick(kCodes);
    m->msg = c.PickOf<std::string>({"", "x", "a longer message that does not fit in place", "y"});
    m->has_detail = c.Chance(1, 3);
    if (m->has_detail) {
        m->detail = c.PickOf<std::string>({"d", "e"});
        return Status(m->code, m->msg, std::make_shared<Detail>(m->detail));
    }
    switch (c.Int(0, 2)) {
        case 0:
            return Status(m->code, m->msg);
        case 1:
            return Status::FromArgs(m->code, m->msg);
        default:
            return Named(m->code, m->msg);
    }
}
void Same(Case& c, const Status& s, const MStatus& m) {
    REQUIRE(s.ok() == (m.code == StatusCode::OK), "ok", s.ToString());
    REQUIRE(s.code() == m.code && s.message() == m.msg, "code", s.ToString() << " want " << static_cast<int>(m.code));
    REQUIRE((s.detail() != nullptr) == m.has_detail && (!m.has_detail || s.detail()->ToString() == m.detail), "detail",
            s.ToString());
    REQUIRE(s.IsOutOfMemory() == (m.code == StatusCode::OutOfMemory) && s.IsKeyError() == (m.code == StatusCode::KeyError) &&
                s.IsTypeError() == (m.code == StatusCode::TypeError) && s.IsInvalid() == (m.code == StatusCode::Invalid) &&
                s.IsIOError() == (m.code == StatusCode::IOError) &&
                s.IsCapacityError() == (m.code == StatusCode::CapacityError) &&
                s.IsIndexError() == (m.code == StatusCode::IndexError) &&
                s.IsUnknownError() == (m.code == StatusCode::UnknownError) &&
                s.IsNotImplemented() == (m.code == StatusCode::NotImplemented) &&
                s.IsSerializationError() == (m.code == StatusCode::SerializationError) &&
                s.IsNotExist() == (m.code == StatusCode::NotExist) && s.IsExist() == (m.code == StatusCode::Exist),
            "predicates", s.ToString());
    std::string t = s.ToString();
    REQUIRE(t.find(m.msg) != std::string::npos && (!m.has_detail || t.find("Detail: " + m.detail) != std::string::npos),
            "text", t);
}
}  // namespace

FACET(statuses, 4) {
    std::vector<Status> ss(3);
    std::vector<MStatus> ms(3);
    int64_t n = c.Len(1, 14);
    c.NonTrivial(n >= 3);
    for (int64_t i = 0; i < n; i++) {
        size_t a = c.Int(0, 2), b = c.Int(0, 2);
        switch (c.Int(0, 11)) {
            case 0:
            case 1:
                ss[a] = Make(c, &ms[a]);
                break;
            case 9: {
                MStatus extra;
                ss[a] &= Make(c, &extra);
                ms[a] = ms[a].code == StatusCode::OK ? extra : ms[a];
                break;
            }
            case 10: {
                Same(c, internal::GenericToStatus(ss[a]), ms[a]);
                int elsewhere = 0;
                auto pass = [&](const Status& st) -> Status {
                    PAIMON_RETURN_NOT_OK_ELSE(st, elsewhere++);
                    return Status::OK();
                };
                Same(c, pass(ss[a]), ms[a]);
                REQUIRE(elsewhere == (ms[a].code == StatusCode::OK ? 0 : 1), "else", elsewhere);
                auto when = [&](bool cond) -> Status {
                    PAIMON_RETURN_IF(cond, ss[a]);
                    return Status::KeyError("past");
                };
                Same(c, when(true), ms[a]);
                REQUIRE(when(false).IsKeyError(), "past", "");
                break;
            }
            case 11: {
                // what a detail says and its kind both tell errors apart, and the object does not
                Status x(StatusCode::Invalid, "m", std::make_shared<Detail>("d"));
                Status y(StatusCode::Invalid, "m", std::make_shared<Detail>("d"));
                Status z(StatusCode::Invalid, "m", std::make_shared<OtherDetail>("d"));
                Status plain(StatusCode::Invalid, "m");
                REQUIRE(x == y && x != z && z != x && x != plain && plain != x && x.Equals(y), "detail-equality", "");
                Status made = Status::FromDetailAndArgs(StatusCode::IOError, std::make_shared<Detail>("k"), "a", 1, 'b');
                REQUIRE(made.IsIOError() && made.message() == "a1b" && made.detail()->ToString() == "k", "from-detail",
                        made.ToString());
                break;
            }
            case 2:
                ss[a] = ss[b];
                ms[a] = MStatus(ms[b]);
                break;
            case 3:
                if (a != b) {
                    ss[a] = std::move(ss[b]);
                    ms[a] = ms[b];
                    ms[b] = MStatus();  // what was moved away is no error
                }
                break;
            case 4:
                ss[a] &= ss[b];
                ms[a] = ms[a].code == StatusCode::OK ? MStatus(ms[b]) : ms[a];
                break;
            case 5: {
                Status both = ss[a] & ss[b];
                Same(c, both, ms[a].code == StatusCode::OK ? ms[b] : ms[a]);
                MStatus extra;
                Status moved = ss[a] & Make(c, &extra);
                Same(c, moved, ms[a].code == StatusCode::OK ? extra : ms[a]);
                break;
            }
            case 6:
                if (ms[a].code != StatusCode::OK) {
                    ss[a] = ss[a].WithDetail(std::make_shared<Detail>("new"));
                    ms[a].has_detail = true;
                    ms[a].detail = "new";
                }
                break;
            case 7:
                if (ms[a].code != StatusCode::OK) {
                    ss[a] = ss[a].WithMessage("now ", 7);
                    ms[a].msg = "now 7";
                }
                break;
            default: {
                Status copy(ss[b]);
                Status moved(std::move(copy));
                Same(c, moved, ms[b]);
                Same(c, copy, MStatus());
            }
        }
        for (int k = 0; k < 3; k++) {
            Same(c, ss[k], ms[k]);
            REQUIRE((ss[k] == ss[a]) == (ms[k] == ms[a]) && (ss[k] != ss[a]) == !(ms[k] == ms[a]), "equality",
                    ss[k].ToString() << " / " << ss[a].ToString());
        }
    }
}

// Codes keep the numbers they were published with, and their names tell them apart.
FACET(codes, 1) {
    size_t i = c.Draw(kCodes.size() - 1);
    c.NonTrivial();
    static const int kNumbers[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13};
    REQUIRE(static_cast<int>(kCodes[i]) == kNumbers[i] && static_cast<int>(StatusCode::OK) == 0, "number", i);
    static const char* kNames[] = {"Out of memory", "Key error",      "Type error",  "Invalid",
                                   "IOError",       "Capacity error", "Index error", "Unknown error",
                                   "NotImplemented", "Serialization error"};
    if (i < 10) {
        REQUIRE(Status::CodeAsString(kCodes[i]) == kNames[i] && Status(kCodes[i], "m").CodeAsString() == kNames[i] &&
                    Status(kCodes[i], "m").ToString() == std::string(kNames[i]) + ": m",
                "name", Status::CodeAsString(kCodes[i]));
    }
    REQUIRE(Status::OK().CodeAsString() == "OK" && Status::CodeAsString(StatusCode::OK) == "OK" &&
                Status::OK().ToString() == "OK",
            "ok-name", "");
}

namespace {
int g_alive = 0;
struct Value {
    explicit Value(int64_t x) : p(std::make_unique<int64_t>(x)) {
        g_alive++;
    }
    Value(const Value& o) : p(o.p ? std::make_unique<int64_t>(*o.p) : nullptr) {
        g_alive++;
    }
    Value(Value&& o) noexcept : p(std::move(o.p)) {
        g_alive++;
    }
    Value& operator=(const Value& o) {
        p = o.p ? std::make_unique<int64_t>(*o.p) : nullptr;
        return *this;
    }
    Value& operator=(Value&& o) noexcept = default;
    ~Value() {
        g_alive--;
    }
    std::unique_ptr<int64_t> p;
};
struct MResult {
    std::optional<int64_t> v;
    MStatus st;
};
Result<int64_t> Half(Result<Value> in) {
    PAIMON_ASSIGN_OR_RAISE(Value v, std::move(in));
    if (*v.p % 2) {
        return Status::Invalid("odd");
    }
    return *v.p / 2;
}
Status Check(const Result<int64_t>& in) {
    PAIMON_RETURN_NOT_OK(in);
    return Status::OK();
}
}  // namespace

FACET(results, 4) {
    g_alive = 0;
    {
        std::vector<Result<Value>> rs;
        std::vector<MResult> ms(3);
        auto make = [&](MResult* m) -> Result<Value> {
            *m = MResult();
            Status st = Make(c, &m->st);
            if (st.ok() || c.Bool()) {
                m->st = MStatus();
                m->v = c.Int(-5, 5);
                return Value(*m->v);
            }
            return st;
        };
        for (int i = 0; i < 3; i++) {
            rs.push_back(make(&ms[i]));
        }
        int64_t n = c.Len(1, 12);
        c.NonTrivial(n >= 3);
        for (int64_t i = 0; i < n; i++) {
            size_t a = c.Int(0, 2), b = c.Int(0, 2);
            switch (c.Int(0, 4)) {
                case 0: {
                    MResult m;
                    rs[a] = make(&m);
                    ms[a] = m;
                    break;
                }
                case 1:
                    rs[a] = rs[b];
                    ms[a] = MResult(ms[b]);
                    break;
                case 2:
                    if (a != b) {
                        rs[a] = std::move(rs[b]);
                        ms[a] = ms[b];
                        rs[b] = make(&ms[b]);  // a result is reused after it was moved from
                    }
                    break;
                case 3: {
                    Result<Value> copy(rs[b]);
                    Result<Value> moved(std::move(copy));
                    REQUIRE(moved.ok() == ms[b].v.has_value() && (!moved.ok() || *moved.value().p == *ms[b].v), "copy", b);
                    Same(c, moved.status(), ms[b].st);
                    REQUIRE(*std::move(moved).value_or(Value(77)).p == ms[b].v.value_or(77), "value-or", b);
                    break;
                }
                default: {
                    Result<int64_t> h = Half(rs[b]);
                    if (!ms[b].v) {
                        Same(c, h.status(), ms[b].st);
                        Same(c, Check(h), ms[b].st);
                    } else if (*ms[b].v % 2) {
                        REQUIRE(h.status().IsInvalid() && h.status().message() == "odd", "raise", h.status().ToString());
                    } else {
                        REQUIRE(h.ok() && h.value() == *ms[b].v / 2 && Check(h).ok(), "assign", b);
                    }
                }
            }
            int values = 0;
            for (int k = 0; k < 3; k++) {
                REQUIRE(rs[k].ok() == ms[k].v.has_value(), "result-ok", k);
                Same(c, rs[k].status(), ms[k].st);
                if (rs[k].ok()) {
                    values++;
                    REQUIRE(rs[k].value().p && *rs[k].value().p == *ms[k].v, "result-value", k);
                }
                REQUIRE(*rs[k].value_or(Value(99)).p == ms[k].v.value_or(99), "value-or", k);
            }
            REQUIRE(g_alive == values, "values-alive", g_alive << " want " << values);
        }
    }
    REQUIRE(g_alive == 0, "values-left", g_alive);
}
