// A small property-based testing engine in the style of Hypothesis.
//
// A test case is a function of a sequence of bounded choices. The generator
// draws choices from a PRNG seeded by VERIF_SEED and the case number; a failing
// case is minimised by editing the choice sequence (deleting blocks, lowering
// values) and re-running it in a forked child, so crashes, sanitizer reports,
// hangs and oracle mismatches are all minimised the same way. The minimised
// sequence is the replay file.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

// An oracle mismatch. `tag` names which rule was broken (stable across inputs).
struct Failure {
    std::string tag;
    std::string msg;
};

// The case generated something outside the property's domain; not counted.
struct Discard {};

class Rng {
 public:
    explicit Rng(uint64_t seed) : s_(seed) {}
    uint64_t Next() {
        s_ += 0x9e3779b97f4a7c15ULL;
        uint64_t z = s_;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }

 private:
    uint64_t s_;
};

// One test case: the source of choices and the place where facts are recorded.
class Case {
 public:
    Case(uint64_t seed, uint64_t size) : rng_(seed), size_(size), replay_(false) {}
    Case(std::vector<uint64_t> choices, uint64_t size)
        : rng_(0), size_(size), replay_(true), in_(std::move(choices)) {}

    // A choice in [0, max]; 0 is the simplest value.
    uint64_t Draw(uint64_t max) {
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            pos_++;
            if (v > max) {
                v = max;
            }
        } else if (max == UINT64_MAX) {
            v = rng_.Next();
        } else {
            v = rng_.Next() % (max + 1);
        }
        if (tap_ && rec_.size() < kTapMax) {
            tap_[rec_.size() + 1] = v;
            tap_[0] = rec_.size() + 1;
        }
        rec_.push_back(v);
        return v;
    }
    // Uniform in [lo, hi], shrinking towards lo.
    int64_t Int(int64_t lo, int64_t hi) {
        return static_cast<int64_t>(static_cast<uint64_t>(lo) +
                                    Draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
    }
    // A length in [lo, hi] that leans small and grows with the case's size.
    int64_t Len(int64_t lo, int64_t hi) {
        if (hi <= lo) {
            return lo;
        }
        int64_t span = hi - lo;
        int64_t cap = span;
        switch (Draw(3)) {
            case 0:
                cap = span < 4 ? span : 4;
                break;
            case 1:
                cap = span < 16 ? span : 16;
                break;
            case 2: {
                int64_t grown = static_cast<int64_t>(4 + size_);
                cap = span < grown ? span : grown;
                break;
            }
            default:
                break;
        }
        return lo + static_cast<int64_t>(Draw(static_cast<uint64_t>(cap)));
    }
    bool Bool() {
        return Draw(1) == 1;
    }
    // True with probability num/den; shrinks to false.
    bool Chance(uint64_t num, uint64_t den) {
        return Draw(den - 1) >= den - num;
    }
    template <typename T>
    const T& Pick(const std::vector<T>& v) {
        return v[Draw(v.size() - 1)];
    }
    template <typename T>
    T PickOf(std::initializer_list<T> v) {
        return *(v.begin() + Draw(v.size() - 1));
    }
    // Index drawn with the given weights; index 0 is the simplest.
    size_t Weighted(std::initializer_list<int> w) {
        uint64_t total = 0;
        for (int x : w) {
            total += static_cast<uint64_t>(x);
        }
        uint64_t d = Draw(total - 1);
        size_t i = 0;
        for (int x : w) {
            if (d < static_cast<uint64_t>(x)) {
                return i;
            }
            d -= static_cast<uint64_t>(x);
            i++;
        }
        return 0;
    }
    // Integers of a width, leaning on boundaries.
    int64_t I64() {
        switch (Draw(5)) {
            case 0:
                return static_cast<int64_t>(Draw(20)) - 5;
            case 1:
                return static_cast<int64_t>(Draw(2000)) - 1000;
            case 2: {
                static const int64_t kEdges[] = {0,
                                                 1,
                                                 -1,
                                                 127,
                                                 128,
                                                 -128,
                                                 -129,
                                                 255,
                                                 256,
                                                 32767,
                                                 32768,
                                                 -32768,
                                                 -32769,
                                                 65535,
                                                 65536,
                                                 INT32_MAX,
                                                 INT32_MAX + 1LL,
                                                 INT32_MIN,
                                                 INT32_MIN - 1LL,
                                                 UINT32_MAX,
                                                 UINT32_MAX + 1LL,
                                                 INT64_MAX,
                                                 INT64_MAX - 1,
                                                 INT64_MIN,
                                                 INT64_MIN + 1};
                return kEdges[Draw(sizeof(kEdges) / sizeof(kEdges[0]) - 1)];
            }
            case 3: {
                uint64_t bits = 1 + Draw(62);
                uint64_t v = Draw((1ULL << bits) - 1);
                return Bool() ? -static_cast<int64_t>(v) : static_cast<int64_t>(v);
            }
            case 4: {
                uint64_t bits = Draw(62);
                int64_t v = static_cast<int64_t>(1ULL << bits) + static_cast<int64_t>(Draw(4)) - 2;
                return Bool() ? -v : v;
            }
            default:
                return static_cast<int64_t>(Draw(UINT64_MAX));
        }
    }
    int32_t I32() {
        switch (Draw(4)) {
            case 0:
                return static_cast<int32_t>(Draw(20)) - 5;
            case 1: {
                static const int32_t kEdges[] = {0,     1,     -1,    127,    128,       -128,
                                                 -129,  255,   256,   32767,  32768,     -32768,
                                                 65535, 65536, 65537, 131071, INT32_MAX, INT32_MAX - 1,
                                                 INT32_MIN, INT32_MIN + 1};
                return kEdges[Draw(sizeof(kEdges) / sizeof(kEdges[0]) - 1)];
            }
            case 2: {
                uint64_t bits = 1 + Draw(30);
                uint64_t v = Draw((1ULL << bits) - 1);
                return Bool() ? -static_cast<int32_t>(v) : static_cast<int32_t>(v);
            }
            case 3:
                return static_cast<int32_t>(Draw(2000)) - 1000;
            default:
                return static_cast<int32_t>(static_cast<uint32_t>(Draw(UINT32_MAX)));
        }
    }
    // n bytes; long runs are drawn from one choice so that sequences stay short.
    std::string Bytes(size_t n) {
        std::string out(n, '\0');
        if (n > 64) {
            Rng r(Draw(UINT32_MAX));
            for (size_t i = 0; i < n; i++) {
                out[i] = static_cast<char>(r.Next());
            }
            return out;
        }
        for (size_t i = 0; i < n; i++) {
            out[i] = static_cast<char>(Draw(255));
        }
        return out;
    }
    std::string Ascii(size_t n) {
        std::string out(n, 'a');
        for (size_t i = 0; i < n; i++) {
            out[i] = static_cast<char>('a' + Draw(25));
        }
        return out;
    }
    // A sub-generator for bulk data; its seed is one choice.
    Rng Sub() {
        return Rng(Draw(UINT32_MAX));
    }

    void NonTrivial(bool b = true) {
        if (b) {
            nontrivial_ = true;
        }
    }
    void Label(const std::string& l) {
        labels_.insert(l);
    }
    // Number of oracle comparisons made by this case.
    void Eval(uint64_t n = 1) {
        evals_ += n;
    }
    // Human-readable trace of what the case does, kept for samples and replays.
    std::ostringstream& Log() {
        return log_;
    }
    uint64_t Size() const {
        return size_;
    }

    // When set, every choice is also written here (memory shared with the parent), so
    // that the choices of a case that kills its process are not lost.
    static constexpr size_t kTapMax = 1 << 20;
    volatile uint64_t* tap_ = nullptr;

    Rng rng_;
    uint64_t size_;
    bool replay_;
    std::vector<uint64_t> in_;
    size_t pos_ = 0;
    std::vector<uint64_t> rec_;
    bool nontrivial_ = false;
    std::set<std::string> labels_;
    uint64_t evals_ = 0;
    std::ostringstream log_;
};

using PropFn = void (*)(Case&);

struct Facet {
    const char* name;
    int weight;
    PropFn fn;
};
std::vector<Facet>& Facets();

struct Reg {
    Reg(const char* name, int weight, PropFn fn) {
        Facets().push_back({name, weight, fn});
    }
};

// A directory private to the running worker, emptied before each case.
std::string ScratchDir();

// Runs f in a forked child with its output discarded; false if the child died or did not finish.
// For single inputs that are known to bring the process down.
bool SurvivesInChild(const std::function<void()>& f);

int Main(int argc, char** argv);

// A shorter rendering of a byte string for messages.
std::string Hex(const std::string& s, size_t max = 48);
template <typename T>
std::string Show(const T& t) {
    std::ostringstream o;
    o << t;
    return o.str();
}

}  // namespace pbt

#define FACET(name, weight)                                   \
    static void Facet_##name(::pbt::Case& c);                 \
    static ::pbt::Reg reg_##name(#name, weight, Facet_##name); \
    static void Facet_##name(::pbt::Case& c)

#define FAIL(tag, ...)                                \
    do {                                              \
        std::ostringstream pbt_o;                     \
        pbt_o << __VA_ARGS__;                         \
        throw ::pbt::Failure{tag, pbt_o.str()};       \
    } while (0)

#define REQUIRE(cond, tag, ...)                                     \
    do {                                                            \
        c.Eval();                                                   \
        if (!(cond)) {                                              \
            FAIL(tag, "expected " #cond " : " << __VA_ARGS__);      \
        }                                                           \
    } while (0)

#define REQUIRE_OK(expr, tag)                                                         \
    do {                                                                              \
        auto pbt_st = (expr);                                                         \
        c.Eval();                                                                     \
        if (!pbt_st.ok()) {                                                           \
            FAIL(tag, "expected success of " #expr " : " << ::pbt::StText(pbt_st));   \
        }                                                                             \
    } while (0)

namespace pbt {
template <typename S>
auto StText(const S& s) -> decltype(s.status().ToString()) {
    return s.status().ToString();
}
template <typename S>
auto StText(const S& s) -> decltype(s.ToString()) {
    return s.ToString();
}
}  // namespace pbt

#define UNWRAP(lhs, expr, tag)                                                     \
    auto PBT_CAT(pbt_r_, __LINE__) = (expr);                                       \
    c.Eval();                                                                      \
    if (!PBT_CAT(pbt_r_, __LINE__).ok()) {                                         \
        FAIL(tag, "expected success of " #expr " : "                               \
                      << PBT_CAT(pbt_r_, __LINE__).status().ToString());           \
    }                                                                              \
    lhs = std::move(PBT_CAT(pbt_r_, __LINE__)).value()
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
