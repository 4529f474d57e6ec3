// A small stand-in for the part of Apache Arrow that the library under test uses.
// It follows Arrow's public API, memory layout and C data interface; it is not Arrow.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#define ARROW_EXPORT
#define ARROW_TEMPLATE_EXPORT
#define ARROW_NOINLINE
#define ARROW_PREDICT_FALSE(x) (__builtin_expect(!!(x), 0))
#define ARROW_PREDICT_TRUE(x) (__builtin_expect(!!(x), 1))
#define ARROW_UNUSED(x) (void)(x)

namespace arrow {

// ---------------------------------------------------------------- status, result
enum class StatusCode : char {
    OK = 0,
    OutOfMemory = 1,
    KeyError = 2,
    TypeError = 3,
    Invalid = 4,
    IOError = 5,
    CapacityError = 6,
    IndexError = 7,
    Cancelled = 8,
    UnknownError = 9,
    NotImplemented = 10,
    SerializationError = 11,
    RError = 13,
    CodeGenError = 40,
    ExpressionValidationError = 41,
    ExecutionError = 42,
    AlreadyExists = 45
};

namespace util {
template <typename... Args>
std::string StringBuilder(Args&&... args) {
    std::ostringstream ss;
    (void)std::initializer_list<int>{((void)(ss << args), 0)...};
    return ss.str();
}
}  // namespace util

class [[nodiscard]] Status {
 public:
    Status() noexcept = default;
    Status(StatusCode code, const std::string& msg) : code_(code), msg_(msg) {}

    static Status OK() {
        return Status();
    }
    template <typename... Args>
    static Status FromArgs(StatusCode code, Args&&... args) {
        return Status(code, util::StringBuilder(std::forward<Args>(args)...));
    }
#define MINI_MAKER(NAME)                                                   \
    template <typename... Args>                                            \
    static Status NAME(Args&&... args) {                                   \
        return FromArgs(StatusCode::NAME, std::forward<Args>(args)...);    \
    }                                                                      \
    bool Is##NAME() const {                                                \
        return code_ == StatusCode::NAME;                                  \
    }
    MINI_MAKER(OutOfMemory)
    MINI_MAKER(KeyError)
    MINI_MAKER(TypeError)
    MINI_MAKER(Invalid)
    MINI_MAKER(IOError)
    MINI_MAKER(CapacityError)
    MINI_MAKER(IndexError)
    MINI_MAKER(Cancelled)
    MINI_MAKER(UnknownError)
    MINI_MAKER(NotImplemented)
    MINI_MAKER(SerializationError)
#undef MINI_MAKER

    bool ok() const {
        return code_ == StatusCode::OK;
    }
    bool Equals(const Status& s) const {
        return code_ == s.code_ && msg_ == s.msg_;
    }
    bool operator==(const Status& s) const {
        return Equals(s);
    }
    bool operator!=(const Status& s) const {
        return !Equals(s);
    }
    StatusCode code() const {
        return code_;
    }
    const std::string& message() const {
        return msg_;
    }
    std::string CodeAsString() const;
    std::string ToString() const {
        return ok() ? "OK" : CodeAsString() + ": " + msg_;
    }
    Status operator&(const Status& s) const {
        return ok() ? s : *this;
    }
    Status& operator&=(const Status& s) {
        if (ok()) *this = s;
        return *this;
    }
    void Abort() const {
        std::abort();
    }

 private:
    StatusCode code_ = StatusCode::OK;
    std::string msg_;
};
inline std::ostream& operator<<(std::ostream& os, const Status& s) {
    return os << s.ToString();
}

template <typename T>
class [[nodiscard]] Result {
 public:
    using ValueType = T;
    Result() : status_(Status::UnknownError("uninitialized")) {}
    Result(const Status& s) : status_(s) {  // NOLINT
        assert(!s.ok());
    }
    Result(Status&& s) : status_(std::move(s)) {  // NOLINT
        assert(!status_.ok());
    }
    template <typename U, typename = std::enable_if_t<
                              std::is_constructible_v<T, U> && std::is_convertible_v<U, T> &&
                              !std::is_same_v<std::decay_t<U>, Status> &&
                              !std::is_same_v<std::decay_t<U>, Result<T>>>>
    Result(U&& v) : value_(std::in_place, std::forward<U>(v)) {}  // NOLINT
    template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T> &&
                                                      std::is_convertible_v<U, T>>>
    Result(Result<U>&& o) {  // NOLINT
        if (o.ok()) {
            value_.emplace(o.MoveValueUnsafe());
        } else {
            status_ = o.status();
        }
    }
    template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T> &&
                                                      std::is_convertible_v<U, T>>>
    Result(const Result<U>& o) {  // NOLINT
        if (o.ok()) {
            value_.emplace(o.ValueUnsafe());
        } else {
            status_ = o.status();
        }
    }
    Result(const Result&) = default;
    Result(Result&&) = default;
    Result& operator=(const Result&) = default;
    Result& operator=(Result&&) = default;

    bool ok() const {
        return value_.has_value();
    }
    const Status& status() const {
        return status_;
    }
    const T& ValueOrDie() const& {
        Check();
        return *value_;
    }
    T& ValueOrDie() & {
        Check();
        return *value_;
    }
    T ValueOrDie() && {
        Check();
        return std::move(*value_);
    }
    const T& operator*() const& {
        return ValueOrDie();
    }
    T& operator*() & {
        return ValueOrDie();
    }
    T operator*() && {
        return std::move(*this).ValueOrDie();
    }
    const T* operator->() const {
        return &ValueOrDie();
    }
    T* operator->() {
        return &ValueOrDie();
    }
    const T& ValueUnsafe() const& {
        return *value_;
    }
    T& ValueUnsafe() & {
        return *value_;
    }
    T ValueUnsafe() && {
        return std::move(*value_);
    }
    T MoveValueUnsafe() {
        return std::move(*value_);
    }
    T ValueOr(T alt) const& {
        return ok() ? *value_ : alt;
    }
    template <typename U>
    Status Value(U* out) && {
        if (!ok()) return status_;
        *out = std::move(*value_);
        return Status::OK();
    }

 private:
    void Check() const {
        if (!ok()) {
            fprintf(stderr, "ValueOrDie called on an error: %s\n", status_.ToString().c_str());
            std::abort();
        }
    }
    Status status_;
    std::optional<T> value_;
};

namespace internal {
inline const Status& GenericToStatus(const Status& s) {
    return s;
}
inline Status GenericToStatus(Status&& s) {
    return std::move(s);
}
template <typename T>
inline const Status& GenericToStatus(const Result<T>& r) {
    return r.status();
}
}  // namespace internal

#define ARROW_CONCAT_(x, y) x##y
#define ARROW_CONCAT(x, y) ARROW_CONCAT_(x, y)
#define ARROW_RETURN_NOT_OK(expr)                                              \
    do {                                                                       \
        ::arrow::Status _st = ::arrow::internal::GenericToStatus((expr));      \
        if (!_st.ok()) return _st;                                             \
    } while (false)
#define RETURN_NOT_OK(expr) ARROW_RETURN_NOT_OK(expr)
#define ARROW_ASSIGN_OR_RAISE_IMPL(name, lhs, rexpr) \
    auto&& name = (rexpr);                           \
    if (!(name).ok()) return (name).status();        \
    lhs = std::move(name).ValueUnsafe();
#define ARROW_ASSIGN_OR_RAISE(lhs, rexpr) \
    ARROW_ASSIGN_OR_RAISE_IMPL(ARROW_CONCAT(_error_or_value, __COUNTER__), lhs, rexpr)

namespace internal {
template <typename Out, typename In>
inline Out checked_cast(In&& v) {
    if constexpr (std::is_pointer_v<Out>) {
        return dynamic_cast<Out>(v);
    } else {
        return dynamic_cast<Out>(v);
    }
}
template <class T, class U>
std::shared_ptr<T> checked_pointer_cast(std::shared_ptr<U> r) noexcept {
    return std::dynamic_pointer_cast<T>(std::move(r));
}
template <class T, class U>
std::unique_ptr<T> checked_pointer_cast(std::unique_ptr<U> r) noexcept {
    return std::unique_ptr<T>(static_cast<T*>(r.release()));
}
template <typename T>
std::string ToString(T v) {
    return std::to_string(v);
}
}  // namespace internal
using internal::checked_cast;
using internal::checked_pointer_cast;

// ---------------------------------------------------------------- memory
constexpr int64_t kDefaultBufferAlignment = 64;
namespace internal {
class MemoryPoolStats {
 public:
    int64_t max_memory() const {
        return max_;
    }
    int64_t bytes_allocated() const {
        return cur_;
    }
    int64_t total_bytes_allocated() const {
        return total_;
    }
    int64_t num_allocations() const {
        return num_;
    }
    void DidAllocateBytes(int64_t size) {
        cur_ += size;
        total_ += size;
        num_++;
        if (cur_ > max_) max_ = cur_.load();
    }
    void DidReallocateBytes(int64_t old_size, int64_t new_size) {
        cur_ += new_size - old_size;
        if (new_size > old_size) {
            total_ += new_size - old_size;
            num_++;
        }
        if (cur_ > max_) max_ = cur_.load();
    }
    void DidFreeBytes(int64_t size) {
        cur_ -= size;
    }
    void UpdateAllocatedBytes(int64_t diff, bool is_free = false) {
        cur_ += diff;
        if (diff > 0) {
            total_ += diff;
            if (cur_ > max_) max_ = cur_.load();
        }
        if (!is_free) num_++;
    }

 private:
    std::atomic<int64_t> max_{0}, cur_{0}, total_{0}, num_{0};
};
}  // namespace internal

class MemoryPool {
 public:
    virtual ~MemoryPool() = default;
    Status Allocate(int64_t size, uint8_t** out) {
        return Allocate(size, kDefaultBufferAlignment, out);
    }
    virtual Status Allocate(int64_t size, int64_t alignment, uint8_t** out) = 0;
    virtual Status Reallocate(int64_t old_size, int64_t new_size, int64_t alignment,
                              uint8_t** ptr) = 0;
    Status Reallocate(int64_t old_size, int64_t new_size, uint8_t** ptr) {
        return Reallocate(old_size, new_size, kDefaultBufferAlignment, ptr);
    }
    void Free(uint8_t* buffer, int64_t size) {
        Free(buffer, size, kDefaultBufferAlignment);
    }
    virtual void Free(uint8_t* buffer, int64_t size, int64_t alignment) = 0;
    virtual void ReleaseUnused() {}
    virtual int64_t bytes_allocated() const = 0;
    virtual int64_t max_memory() const {
        return -1;
    }
    virtual int64_t total_bytes_allocated() const {
        return -1;
    }
    virtual int64_t num_allocations() const {
        return -1;
    }
    virtual std::string backend_name() const = 0;
};
MemoryPool* default_memory_pool();
inline MemoryPool* system_memory_pool_() {
    return default_memory_pool();
}

class Buffer {
 public:
    Buffer(const uint8_t* data, int64_t size) : data_(data), size_(size), capacity_(size) {}
    explicit Buffer(std::string_view s)
        : Buffer(reinterpret_cast<const uint8_t*>(s.data()), static_cast<int64_t>(s.size())) {}
    Buffer(std::shared_ptr<Buffer> parent, int64_t offset, int64_t size)
        : Buffer(parent->data() + offset, size) {
        parent_ = std::move(parent);
    }
    virtual ~Buffer() = default;
    static std::shared_ptr<Buffer> FromString(std::string s);
    static std::shared_ptr<Buffer> Wrap(const void* data, int64_t size) {
        return std::make_shared<Buffer>(static_cast<const uint8_t*>(data), size);
    }
    const uint8_t* data() const {
        return data_;
    }
    uint8_t* mutable_data() {
        return const_cast<uint8_t*>(data_);
    }
    template <typename T>
    const T* data_as() const {
        return reinterpret_cast<const T*>(data_);
    }
    template <typename T>
    T* mutable_data_as() {
        return reinterpret_cast<T*>(mutable_data());
    }
    int64_t size() const {
        return size_;
    }
    int64_t capacity() const {
        return capacity_;
    }
    bool is_mutable() const {
        return is_mutable_;
    }
    uint8_t operator[](size_t i) const {
        return data_[i];
    }
    std::string ToString() const {
        return std::string(reinterpret_cast<const char*>(data_), static_cast<size_t>(size_));
    }
    bool Equals(const Buffer& o) const {
        return size_ == o.size_ && (size_ == 0 || memcmp(data_, o.data_, size_) == 0);
    }
    explicit operator std::string_view() const {
        return {reinterpret_cast<const char*>(data_), static_cast<size_t>(size_)};
    }

 protected:
    bool is_mutable_ = false;
    const uint8_t* data_;
    int64_t size_;
    int64_t capacity_;
    std::shared_ptr<Buffer> parent_;
};
using BufferVector = std::vector<std::shared_ptr<Buffer>>;

class ResizableBuffer : public Buffer {
 public:
    virtual Status Resize(int64_t new_size, bool shrink_to_fit) = 0;
    Status Resize(int64_t new_size) {
        return Resize(new_size, true);
    }
    virtual Status Reserve(int64_t new_capacity) = 0;

 protected:
    ResizableBuffer(uint8_t* data, int64_t size) : Buffer(data, size) {
        is_mutable_ = true;
    }
};

Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool = nullptr);
Result<std::unique_ptr<ResizableBuffer>> AllocateResizableBuffer(int64_t size,
                                                                 MemoryPool* pool = nullptr);
inline std::shared_ptr<Buffer> SliceBuffer(std::shared_ptr<Buffer> b, int64_t off, int64_t len) {
    return std::make_shared<Buffer>(std::move(b), off, len);
}

namespace bit_util {
inline bool GetBit(const uint8_t* bits, uint64_t i) {
    return (bits[i >> 3] >> (i & 7)) & 1;
}
inline void SetBit(uint8_t* bits, int64_t i) {
    bits[i >> 3] |= static_cast<uint8_t>(1u << (i & 7));
}
inline void ClearBit(uint8_t* bits, int64_t i) {
    bits[i >> 3] &= static_cast<uint8_t>(~(1u << (i & 7)));
}
inline void SetBitTo(uint8_t* bits, int64_t i, bool v) {
    if (v) {
        SetBit(bits, i);
    } else {
        ClearBit(bits, i);
    }
}
inline int64_t BytesForBits(int64_t bits) {
    return (bits + 7) / 8;
}
}  // namespace bit_util

class BufferBuilder {
 public:
    explicit BufferBuilder(MemoryPool* pool = default_memory_pool()) : pool_(pool) {}
    Status Resize(int64_t cap, bool shrink = true);
    Status Reserve(int64_t more) {
        if (size_ + more > capacity_) return Resize(std::max(size_ + more, capacity_ * 2), false);
        return Status::OK();
    }
    Status Append(const void* data, int64_t len) {
        ARROW_RETURN_NOT_OK(Reserve(len));
        if (len > 0) memcpy(data_ + size_, data, static_cast<size_t>(len));
        size_ += len;
        return Status::OK();
    }
    Status Append(int64_t copies, uint8_t v) {
        ARROW_RETURN_NOT_OK(Reserve(copies));
        memset(data_ + size_, v, static_cast<size_t>(copies));
        size_ += copies;
        return Status::OK();
    }
    Result<std::shared_ptr<Buffer>> Finish(bool shrink = true);
    Status Finish(std::shared_ptr<Buffer>* out, bool shrink = true) {
        return Finish(shrink).Value(out);
    }
    void Reset() {
        buf_ = nullptr;
        data_ = nullptr;
        size_ = capacity_ = 0;
    }
    void Rewind(int64_t p) {
        size_ = p;
    }
    int64_t length() const {
        return size_;
    }
    int64_t capacity() const {
        return capacity_;
    }
    const uint8_t* data() const {
        return data_;
    }
    uint8_t* mutable_data() {
        return data_;
    }

 private:
    MemoryPool* pool_;
    std::shared_ptr<ResizableBuffer> buf_;
    uint8_t* data_ = nullptr;
    int64_t size_ = 0, capacity_ = 0;
};

template <typename T, typename Enable = void>
class TypedBufferBuilder {
 public:
    explicit TypedBufferBuilder(MemoryPool* pool = default_memory_pool()) : b_(pool) {}
    Status Append(T v) {
        return b_.Append(&v, sizeof(T));
    }
    Status Append(const T* v, int64_t n) {
        return b_.Append(v, n * static_cast<int64_t>(sizeof(T)));
    }
    Status Append(int64_t copies, T v) {
        for (int64_t i = 0; i < copies; i++) ARROW_RETURN_NOT_OK(Append(v));
        return Status::OK();
    }
    void UnsafeAppend(T v) {
        (void)Append(v);
    }
    Status Reserve(int64_t n) {
        return b_.Reserve(n * static_cast<int64_t>(sizeof(T)));
    }
    Status Resize(int64_t n, bool shrink = true) {
        return b_.Resize(n * static_cast<int64_t>(sizeof(T)), shrink);
    }
    Result<std::shared_ptr<Buffer>> Finish(bool shrink = true) {
        return b_.Finish(shrink);
    }
    Status Finish(std::shared_ptr<Buffer>* out, bool shrink = true) {
        return b_.Finish(out, shrink);
    }
    void Reset() {
        b_.Reset();
    }
    int64_t length() const {
        return b_.length() / static_cast<int64_t>(sizeof(T));
    }
    int64_t capacity() const {
        return b_.capacity() / static_cast<int64_t>(sizeof(T));
    }
    const T* data() const {
        return reinterpret_cast<const T*>(b_.data());
    }
    T* mutable_data() {
        return reinterpret_cast<T*>(b_.mutable_data());
    }

 private:
    BufferBuilder b_;
};

template <>
class TypedBufferBuilder<bool> {
 public:
    explicit TypedBufferBuilder(MemoryPool* pool = default_memory_pool()) : b_(pool) {}
    Status Append(bool v) {
        if (n_ % 8 == 0) ARROW_RETURN_NOT_OK(b_.Append(1, 0));
        bit_util::SetBitTo(b_.mutable_data(), n_, v);
        if (!v) false_++;
        n_++;
        return Status::OK();
    }
    Status Append(int64_t copies, bool v) {
        for (int64_t i = 0; i < copies; i++) ARROW_RETURN_NOT_OK(Append(v));
        return Status::OK();
    }
    void UnsafeAppend(bool v) {
        (void)Append(v);
    }
    Status Reserve(int64_t) {
        return Status::OK();
    }
    Status Resize(int64_t, bool = true) {
        return Status::OK();
    }
    Result<std::shared_ptr<Buffer>> Finish(bool shrink = true) {
        n_ = false_ = 0;
        return b_.Finish(shrink);
    }
    Status Finish(std::shared_ptr<Buffer>* out, bool shrink = true) {
        n_ = false_ = 0;
        return b_.Finish(out, shrink);
    }
    void Reset() {
        b_.Reset();
        n_ = false_ = 0;
    }
    int64_t length() const {
        return n_;
    }
    int64_t false_count() const {
        return false_;
    }
    const uint8_t* data() const {
        return b_.data();
    }
    uint8_t* mutable_data() {
        return b_.mutable_data();
    }

 private:
    BufferBuilder b_;
    int64_t n_ = 0, false_ = 0;
};

// ---------------------------------------------------------------- decimal
class BasicDecimal128 {
 public:
    constexpr BasicDecimal128() : v_(0) {}
    constexpr BasicDecimal128(int64_t high, uint64_t low)
        : v_(static_cast<__int128>((static_cast<unsigned __int128>(static_cast<uint64_t>(high)) << 64) | low)) {}
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    constexpr BasicDecimal128(T v) : v_(static_cast<__int128>(v)) {}  // NOLINT
    static constexpr int kMaxPrecision = 38;
    static constexpr int kMaxScale = 38;
    int64_t high_bits() const {
        return static_cast<int64_t>(static_cast<unsigned __int128>(v_) >> 64);
    }
    uint64_t low_bits() const {
        return static_cast<uint64_t>(v_);
    }
    __int128 raw() const {
        return v_;
    }
    static BasicDecimal128 FromRaw(__int128 v) {
        BasicDecimal128 d;
        d.v_ = v;
        return d;
    }
    int64_t Sign() const {
        return v_ < 0 ? -1 : 1;
    }
    BasicDecimal128& Negate() {
        v_ = static_cast<__int128>(-static_cast<unsigned __int128>(v_));
        return *this;
    }
    BasicDecimal128& Abs() {
        if (v_ < 0) Negate();
        return *this;
    }
    static BasicDecimal128 Abs(const BasicDecimal128& o) {
        BasicDecimal128 r(o);
        return r.Abs();
    }
    bool FitsInPrecision(int32_t precision) const;
    static const BasicDecimal128& GetScaleMultiplier(int32_t scale);
    static BasicDecimal128 GetMaxValue(int32_t precision);
    static BasicDecimal128 GetMaxSentinel();
    static BasicDecimal128 GetMinSentinel();
    std::array<uint8_t, 16> ToBytes() const;
    void ToBytes(uint8_t* out) const {
        memcpy(out, &v_, 16);
    }
    BasicDecimal128 IncreaseScaleBy(int32_t n) const {
        return FromRaw(v_ * GetScaleMultiplier(n).v_);
    }
    BasicDecimal128 ReduceScaleBy(int32_t n, bool round = true) const;
    BasicDecimal128& operator/=(const BasicDecimal128& o) {
        v_ /= o.v_;
        return *this;
    }
    BasicDecimal128& operator*=(const BasicDecimal128& o) {
        v_ *= o.v_;
        return *this;
    }
    bool operator==(const BasicDecimal128& o) const {
        return v_ == o.v_;
    }
    bool operator!=(const BasicDecimal128& o) const {
        return v_ != o.v_;
    }
    bool operator<(const BasicDecimal128& o) const {
        return v_ < o.v_;
    }
    bool operator<=(const BasicDecimal128& o) const {
        return v_ <= o.v_;
    }
    bool operator>(const BasicDecimal128& o) const {
        return v_ > o.v_;
    }
    bool operator>=(const BasicDecimal128& o) const {
        return v_ >= o.v_;
    }

 protected:
    __int128 v_;
};

class Decimal128 : public BasicDecimal128 {
 public:
    using BasicDecimal128::BasicDecimal128;
    constexpr Decimal128() = default;
    Decimal128(const BasicDecimal128& o) : BasicDecimal128(o) {}  // NOLINT
    explicit Decimal128(const uint8_t* bytes) {
        memcpy(&v_, bytes, 16);
    }
    explicit Decimal128(const std::string& s) {
        auto r = FromString(s);
        if (r.ok()) *this = *r;
    }
    Decimal128& operator/=(const Decimal128& o) {
        v_ /= o.v_;
        return *this;
    }
    Decimal128& operator*=(const Decimal128& o) {
        v_ *= o.v_;
        return *this;
    }
    Decimal128& operator+=(const Decimal128& o) {
        v_ += o.v_;
        return *this;
    }
    Decimal128& operator-=(const Decimal128& o) {
        v_ -= o.v_;
        return *this;
    }
    Decimal128 operator-() const {
        Decimal128 r(*this);
        r.Negate();
        return r;
    }
    Decimal128 operator+(const Decimal128& o) const {
        return BasicDecimal128::FromRaw(v_ + o.v_);
    }
    Decimal128 operator-(const Decimal128& o) const {
        return BasicDecimal128::FromRaw(v_ - o.v_);
    }
    Decimal128 operator*(const Decimal128& o) const {
        return BasicDecimal128::FromRaw(v_ * o.v_);
    }
    Decimal128 operator/(const Decimal128& o) const {
        return BasicDecimal128::FromRaw(v_ / o.v_);
    }
    Decimal128 operator%(const Decimal128& o) const {
        return BasicDecimal128::FromRaw(v_ % o.v_);
    }
    Result<std::pair<Decimal128, Decimal128>> Divide(const Decimal128& d) const {
        if (d.v_ == 0) return Status::Invalid("Division by 0 in Decimal");
        return std::make_pair(Decimal128(FromRaw(v_ / d.v_)), Decimal128(FromRaw(v_ % d.v_)));
    }
    std::string ToString(int32_t scale) const;
    std::string ToIntegerString() const;
    static Status FromString(std::string_view s, Decimal128* out, int32_t* precision,
                             int32_t* scale = nullptr);
    static Status FromString(const std::string& s, Decimal128* out, int32_t* precision,
                             int32_t* scale = nullptr) {
        return FromString(std::string_view(s), out, precision, scale);
    }
    static Result<Decimal128> FromString(std::string_view s) {
        Decimal128 d;
        ARROW_RETURN_NOT_OK(FromString(s, &d, nullptr, nullptr));
        return d;
    }
    static Result<Decimal128> FromReal(double v, int32_t precision, int32_t scale);
    static Result<Decimal128> FromReal(float v, int32_t precision, int32_t scale);
    static Result<Decimal128> FromBigEndian(const uint8_t* data, int32_t length);
    Result<Decimal128> Rescale(int32_t from, int32_t to) const;
    template <typename T>
    Result<T> ToInteger() const {
        if (v_ < static_cast<__int128>(std::numeric_limits<T>::min()) ||
            v_ > static_cast<__int128>(std::numeric_limits<T>::max())) {
            return Status::Invalid("Invalid cast from Decimal128 to integer");
        }
        return static_cast<T>(v_);
    }
    template <typename T>
    Status ToInteger(T* out) const {
        return ToInteger<T>().Value(out);
    }
    double ToDouble(int32_t scale) const;
    float ToFloat(int32_t scale) const;
    explicit operator int64_t() const {
        return static_cast<int64_t>(v_);
    }
};
inline std::ostream& operator<<(std::ostream& os, const Decimal128& d) {
    return os << d.ToIntegerString();
}

// ---------------------------------------------------------------- types
class KeyValueMetadata {
 public:
    KeyValueMetadata() = default;
    KeyValueMetadata(std::vector<std::string> k, std::vector<std::string> v)
        : keys_(std::move(k)), values_(std::move(v)) {}
    explicit KeyValueMetadata(const std::unordered_map<std::string, std::string>& m) {
        for (auto& kv : m) Append(kv.first, kv.second);
    }
    static std::shared_ptr<KeyValueMetadata> Make(std::vector<std::string> k,
                                                  std::vector<std::string> v) {
        return std::make_shared<KeyValueMetadata>(std::move(k), std::move(v));
    }
    void ToUnorderedMap(std::unordered_map<std::string, std::string>* out) const {
        for (size_t i = 0; i < keys_.size(); i++) out->insert({keys_[i], values_[i]});
    }
    void Append(std::string k, std::string v) {
        keys_.push_back(std::move(k));
        values_.push_back(std::move(v));
    }
    Result<std::string> Get(std::string_view k) const {
        int i = FindKey(k);
        if (i < 0) return Status::KeyError(k);
        return values_[i];
    }
    bool Contains(std::string_view k) const {
        return FindKey(k) >= 0;
    }
    Status Set(std::string k, std::string v) {
        int i = FindKey(k);
        if (i < 0) {
            Append(std::move(k), std::move(v));
        } else {
            values_[i] = std::move(v);
        }
        return Status::OK();
    }
    Status Delete(std::string_view k) {
        int i = FindKey(k);
        if (i < 0) return Status::KeyError(k);
        keys_.erase(keys_.begin() + i);
        values_.erase(values_.begin() + i);
        return Status::OK();
    }
    int64_t size() const {
        return static_cast<int64_t>(keys_.size());
    }
    const std::string& key(int64_t i) const {
        return keys_[i];
    }
    const std::string& value(int64_t i) const {
        return values_[i];
    }
    const std::vector<std::string>& keys() const {
        return keys_;
    }
    const std::vector<std::string>& values() const {
        return values_;
    }
    int FindKey(std::string_view k) const {
        for (size_t i = 0; i < keys_.size(); i++) {
            if (keys_[i] == k) return static_cast<int>(i);
        }
        return -1;
    }
    std::shared_ptr<KeyValueMetadata> Copy() const {
        return std::make_shared<KeyValueMetadata>(keys_, values_);
    }
    std::shared_ptr<KeyValueMetadata> Merge(const KeyValueMetadata& o) const {
        auto r = Copy();
        for (size_t i = 0; i < o.keys_.size(); i++) (void)r->Set(o.keys_[i], o.values_[i]);
        return r;
    }
    bool Equals(const KeyValueMetadata& o) const;
    std::string ToString() const;

 private:
    std::vector<std::string> keys_, values_;
};
std::shared_ptr<KeyValueMetadata> key_value_metadata(
    const std::unordered_map<std::string, std::string>& pairs);
std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> keys,
                                                     std::vector<std::string> values);

struct Type {
    enum type {
        NA = 0,
        BOOL,
        UINT8,
        INT8,
        UINT16,
        INT16,
        UINT32,
        INT32,
        UINT64,
        INT64,
        HALF_FLOAT,
        FLOAT,
        DOUBLE,
        STRING,
        BINARY,
        FIXED_SIZE_BINARY,
        DATE32,
        DATE64,
        TIMESTAMP,
        TIME32,
        TIME64,
        INTERVAL_MONTHS,
        INTERVAL_DAY_TIME,
        DECIMAL128,
        DECIMAL = DECIMAL128,
        DECIMAL256,
        LIST,
        STRUCT,
        SPARSE_UNION,
        DENSE_UNION,
        DICTIONARY,
        MAP,
        EXTENSION,
        FIXED_SIZE_LIST,
        DURATION,
        LARGE_STRING,
        LARGE_BINARY,
        LARGE_LIST,
        INTERVAL_MONTH_DAY_NANO,
        RUN_END_ENCODED,
        STRING_VIEW,
        BINARY_VIEW,
        LIST_VIEW,
        LARGE_LIST_VIEW,
        MAX_ID
    };
};
struct TimeUnit {
    enum type { SECOND = 0, MILLI = 1, MICRO = 2, NANO = 3 };
};
inline std::ostream& operator<<(std::ostream& os, TimeUnit::type u) {
    static const char* n[] = {"s", "ms", "us", "ns"};
    return os << n[u];
}

namespace internal {
std::string ToString(Type::type id);
std::string ToString(TimeUnit::type unit);
}  // namespace internal

class DataType;
class Field;
class Schema;
class Array;
struct ArrayData;
class ArrayBuilder;
struct Scalar;
using FieldVector = std::vector<std::shared_ptr<Field>>;
using ArrayVector = std::vector<std::shared_ptr<Array>>;
using DataTypeVector = std::vector<std::shared_ptr<DataType>>;
using ScalarVector = std::vector<std::shared_ptr<Scalar>>;
using ArrayDataVector = std::vector<std::shared_ptr<ArrayData>>;

class DataType : public std::enable_shared_from_this<DataType> {
 public:
    explicit DataType(Type::type id) : id_(id) {}
    virtual ~DataType() = default;
    Type::type id() const {
        return id_;
    }
    virtual std::string name() const = 0;
    virtual std::string ToString(bool show_metadata = false) const {
        return name();
    }
    bool Equals(const DataType& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<DataType>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    bool operator==(const DataType& o) const {
        return Equals(o);
    }
    const FieldVector& fields() const {
        return children_;
    }
    const std::shared_ptr<Field>& field(int i) const {
        return children_[i];
    }
    int num_fields() const {
        return static_cast<int>(children_.size());
    }
    virtual int bit_width() const {
        return -1;
    }
    int byte_width() const {
        return bit_width() < 0 ? -1 : bit_width() / 8;
    }
    std::shared_ptr<DataType> GetSharedPtr() const {
        return const_cast<DataType*>(this)->shared_from_this();
    }

 protected:
    Type::type id_;
    FieldVector children_;
};
inline std::ostream& operator<<(std::ostream& os, const DataType& t) {
    return os << t.ToString();
}

struct TypeHolder {
    TypeHolder() = default;
    TypeHolder(std::shared_ptr<DataType> t) : type(t.get()), owned(std::move(t)) {}  // NOLINT
    TypeHolder(const DataType* t) : type(t) {}                                      // NOLINT
    const DataType* type = nullptr;
    std::shared_ptr<DataType> owned;
    std::shared_ptr<DataType> GetSharedPtr() const {
        return type ? type->GetSharedPtr() : nullptr;
    }
    Type::type id() const {
        return type->id();
    }
};

class Field : public std::enable_shared_from_this<Field> {
 public:
    Field(std::string name, std::shared_ptr<DataType> type, bool nullable = true,
          std::shared_ptr<const KeyValueMetadata> md = nullptr)
        : name_(std::move(name)), type_(std::move(type)), nullable_(nullable), md_(std::move(md)) {}
    const std::string& name() const {
        return name_;
    }
    const std::shared_ptr<DataType>& type() const {
        return type_;
    }
    bool nullable() const {
        return nullable_;
    }
    std::shared_ptr<const KeyValueMetadata> metadata() const {
        return md_;
    }
    bool HasMetadata() const {
        return md_ && md_->size() > 0;
    }
    std::shared_ptr<Field> WithMetadata(std::shared_ptr<const KeyValueMetadata> md) const {
        return std::make_shared<Field>(name_, type_, nullable_, std::move(md));
    }
    std::shared_ptr<Field> WithMergedMetadata(std::shared_ptr<const KeyValueMetadata> md) const {
        return std::make_shared<Field>(name_, type_, nullable_, md_ && md ? md_->Merge(*md) : md);
    }
    std::shared_ptr<Field> RemoveMetadata() const {
        return std::make_shared<Field>(name_, type_, nullable_);
    }
    std::shared_ptr<Field> WithType(const std::shared_ptr<DataType>& t) const {
        return std::make_shared<Field>(name_, t, nullable_, md_);
    }
    std::shared_ptr<Field> WithName(const std::string& n) const {
        return std::make_shared<Field>(n, type_, nullable_, md_);
    }
    std::shared_ptr<Field> WithNullable(bool n) const {
        return std::make_shared<Field>(name_, type_, n, md_);
    }
    std::shared_ptr<Field> Copy() const {
        return std::make_shared<Field>(name_, type_, nullable_, md_);
    }
    bool Equals(const Field& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Field>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    std::string ToString(bool show_metadata = false) const;

 private:
    std::string name_;
    std::shared_ptr<DataType> type_;
    bool nullable_;
    std::shared_ptr<const KeyValueMetadata> md_;
};

#define MINI_SIMPLE_TYPE(CLASS, ID, NAME, CTYPE, BITS)        \
    class CLASS : public DataType {                           \
     public:                                                  \
        static constexpr Type::type type_id = Type::ID;       \
        using c_type = CTYPE;                                 \
        static constexpr const char* type_name() {            \
            return NAME;                                      \
        }                                                     \
        CLASS() : DataType(Type::ID) {}                       \
        std::string name() const override {                   \
            return NAME;                                      \
        }                                                     \
        int bit_width() const override {                      \
            return BITS;                                      \
        }                                                     \
    };
MINI_SIMPLE_TYPE(BooleanType, BOOL, "bool", bool, 1)
MINI_SIMPLE_TYPE(Int8Type, INT8, "int8", int8_t, 8)
MINI_SIMPLE_TYPE(UInt8Type, UINT8, "uint8", uint8_t, 8)
MINI_SIMPLE_TYPE(Int16Type, INT16, "int16", int16_t, 16)
MINI_SIMPLE_TYPE(UInt16Type, UINT16, "uint16", uint16_t, 16)
MINI_SIMPLE_TYPE(Int32Type, INT32, "int32", int32_t, 32)
MINI_SIMPLE_TYPE(UInt32Type, UINT32, "uint32", uint32_t, 32)
MINI_SIMPLE_TYPE(Int64Type, INT64, "int64", int64_t, 64)
MINI_SIMPLE_TYPE(UInt64Type, UINT64, "uint64", uint64_t, 64)
MINI_SIMPLE_TYPE(FloatType, FLOAT, "float", float, 32)
MINI_SIMPLE_TYPE(DoubleType, DOUBLE, "double", double, 64)
MINI_SIMPLE_TYPE(Date64Type, DATE64, "date64", int64_t, 64)
#undef MINI_SIMPLE_TYPE
class Date32Type : public DataType {
 public:
    static constexpr Type::type type_id = Type::DATE32;
    using c_type = int32_t;
    static constexpr const char* type_name() {
        return "date32";
    }
    Date32Type() : DataType(Type::DATE32) {}
    std::string name() const override {
        return "date32";
    }
    std::string ToString(bool = false) const override {
        return "date32[day]";
    }
    int bit_width() const override {
        return 32;
    }
};
class NullType : public DataType {
 public:
    static constexpr Type::type type_id = Type::NA;
    NullType() : DataType(Type::NA) {}
    std::string name() const override {
        return "null";
    }
};
class BaseBinaryType : public DataType {
 public:
    using DataType::DataType;
};
#define MINI_BINARY_TYPE(CLASS, BASE, ID, NAME, SHOWN, OFF, UTF8)                 \
    class CLASS : public BASE {                                           \
     public:                                                              \
        static constexpr Type::type type_id = Type::ID;                   \
        static constexpr bool is_utf8 = UTF8;                             \
        using offset_type = OFF;                                          \
        static constexpr const char* type_name() {                        \
            return NAME;                                                  \
        }                                                                 \
        CLASS() : CLASS(Type::ID) {}                                      \
        std::string name() const override {                               \
            return NAME;                                                  \
        }                                                                 \
        std::string ToString(bool = false) const override {               \
            return SHOWN;                                                 \
        }                                                                 \
                                                                          \
     protected:                                                           \
        explicit CLASS(Type::type id) : BASE(id) {}                       \
    };
MINI_BINARY_TYPE(BinaryType, BaseBinaryType, BINARY, "binary", "binary", int32_t, false)
MINI_BINARY_TYPE(LargeBinaryType, BaseBinaryType, LARGE_BINARY, "large_binary", "large_binary", int64_t, false)
MINI_BINARY_TYPE(StringType, BinaryType, STRING, "utf8", "string", int32_t, true)
MINI_BINARY_TYPE(LargeStringType, LargeBinaryType, LARGE_STRING, "large_utf8", "large_string", int64_t, true)
#undef MINI_BINARY_TYPE
class FixedSizeBinaryType : public DataType {
 public:
    static constexpr Type::type type_id = Type::FIXED_SIZE_BINARY;
    explicit FixedSizeBinaryType(int32_t w) : DataType(Type::FIXED_SIZE_BINARY), w_(w) {}
    std::string name() const override {
        return "fixed_size_binary";
    }
    std::string ToString(bool = false) const override {
        return "fixed_size_binary[" + std::to_string(w_) + "]";
    }
    int bit_width() const override {
        return w_ * 8;
    }
    int32_t byte_width() const {
        return w_;
    }

 protected:
    FixedSizeBinaryType(int32_t w, Type::type id) : DataType(id), w_(w) {}
    int32_t w_;
};
class DecimalType : public FixedSizeBinaryType {
 public:
    DecimalType(Type::type id, int32_t w, int32_t p, int32_t s)
        : FixedSizeBinaryType(w, id), p_(p), s_(s) {}
    int32_t precision() const {
        return p_;
    }
    int32_t scale() const {
        return s_;
    }

 protected:
    int32_t p_, s_;
};
class Decimal128Type : public DecimalType {
 public:
    static constexpr Type::type type_id = Type::DECIMAL128;
    static constexpr int32_t kMinPrecision = 1;
    static constexpr int32_t kMaxPrecision = 38;
    using CType = Decimal128;
    static constexpr const char* type_name() {
        return "decimal128";
    }
    Decimal128Type(int32_t p, int32_t s) : DecimalType(Type::DECIMAL128, 16, p, s) {
        if (p < kMinPrecision || p > kMaxPrecision) std::abort();  // as Arrow does
    }
    static Result<std::shared_ptr<DataType>> Make(int32_t p, int32_t s);
    std::string name() const override {
        return "decimal128";
    }
    std::string ToString(bool = false) const override {
        return "decimal128(" + std::to_string(p_) + ", " + std::to_string(s_) + ")";
    }
};
class Decimal256Type : public DecimalType {
 public:
    Decimal256Type(int32_t p, int32_t s) : DecimalType(Type::DECIMAL256, 32, p, s) {}
    std::string name() const override {
        return "decimal256";
    }
    std::string ToString(bool = false) const override {
        return "decimal256(" + std::to_string(p_) + ", " + std::to_string(s_) + ")";
    }
};
inline std::shared_ptr<DataType> decimal256(int32_t p, int32_t s) {
    return std::make_shared<Decimal256Type>(p, s);
}
class TimestampType : public DataType {
 public:
    static constexpr Type::type type_id = Type::TIMESTAMP;
    using c_type = int64_t;
    using Unit = TimeUnit;
    static constexpr const char* type_name() {
        return "timestamp";
    }
    explicit TimestampType(TimeUnit::type u = TimeUnit::MILLI, const std::string& tz = "")
        : DataType(Type::TIMESTAMP), unit_(u), tz_(tz) {}
    std::string name() const override {
        return "timestamp";
    }
    std::string ToString(bool = false) const override {
        std::stringstream ss;
        ss << "timestamp[" << unit_;
        if (!tz_.empty()) ss << ", tz=" << tz_;
        ss << "]";
        return ss.str();
    }
    TimeUnit::type unit() const {
        return unit_;
    }
    const std::string& timezone() const {
        return tz_;
    }
    int bit_width() const override {
        return 64;
    }

 private:
    TimeUnit::type unit_;
    std::string tz_;
};
class NestedType : public DataType {
 public:
    using DataType::DataType;
};
class BaseListType : public NestedType {
 public:
    using NestedType::NestedType;
    const std::shared_ptr<Field>& value_field() const {
        return children_[0];
    }
    const std::shared_ptr<DataType>& value_type() const {
        return children_[0]->type();
    }
};
class ListType : public BaseListType {
 public:
    static constexpr Type::type type_id = Type::LIST;
    using offset_type = int32_t;
    static constexpr const char* type_name() {
        return "list";
    }
    explicit ListType(const std::shared_ptr<DataType>& t)
        : ListType(std::make_shared<Field>("item", t)) {}
    explicit ListType(const std::shared_ptr<Field>& f) : BaseListType(Type::LIST) {
        children_ = {f};
    }
    std::string name() const override {
        return "list";
    }
    std::string ToString(bool sm = false) const override {
        return "list<" + value_field()->ToString(sm) + ">";
    }
};
class MapType : public ListType {
 public:
    static constexpr Type::type type_id = Type::MAP;
    static constexpr const char* type_name() {
        return "map";
    }
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool sorted = false)
        : MapType(std::make_shared<Field>("key", std::move(k), false),
                  std::make_shared<Field>("value", std::move(v)), sorted) {}
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<Field> item, bool sorted = false)
        : MapType(std::make_shared<Field>("key", std::move(k), false), std::move(item), sorted) {}
    MapType(std::shared_ptr<Field> k, std::shared_ptr<Field> item, bool sorted = false);
    explicit MapType(std::shared_ptr<Field> value_field, bool sorted = false)
        : ListType(std::move(value_field)), sorted_(sorted) {
        id_ = Type::MAP;
    }
    std::shared_ptr<Field> key_field() const {
        return value_type()->field(0);
    }
    std::shared_ptr<DataType> key_type() const {
        return key_field()->type();
    }
    std::shared_ptr<Field> item_field() const {
        return value_type()->field(1);
    }
    std::shared_ptr<DataType> item_type() const {
        return item_field()->type();
    }
    bool keys_sorted() const {
        return sorted_;
    }
    std::string name() const override {
        return "map";
    }
    std::string ToString(bool sm = false) const override;

 private:
    bool sorted_;
};
class StructType : public NestedType {
 public:
    static constexpr Type::type type_id = Type::STRUCT;
    static constexpr const char* type_name() {
        return "struct";
    }
    explicit StructType(const FieldVector& f) : NestedType(Type::STRUCT) {
        children_ = f;
    }
    std::string name() const override {
        return "struct";
    }
    std::string ToString(bool sm = false) const override;
    std::shared_ptr<Field> GetFieldByName(const std::string& n) const {
        int i = GetFieldIndex(n);
        return i < 0 ? nullptr : children_[i];
    }
    std::vector<int> GetAllFieldIndices(const std::string& n) const {
        std::vector<int> r;
        for (size_t i = 0; i < children_.size(); i++) {
            if (children_[i]->name() == n) r.push_back(static_cast<int>(i));
        }
        return r;
    }
    int GetFieldIndex(const std::string& n) const {
        auto r = GetAllFieldIndices(n);
        return r.size() == 1 ? r[0] : -1;
    }
    Result<std::shared_ptr<StructType>> AddField(int i, const std::shared_ptr<Field>& f) const {
        if (i < 0 || i > num_fields()) return Status::Invalid("Invalid column index to add field.");
        auto v = children_;
        v.insert(v.begin() + i, f);
        return std::make_shared<StructType>(v);
    }
};
class DictionaryType : public DataType {
 public:
    static constexpr Type::type type_id = Type::DICTIONARY;
    DictionaryType(const std::shared_ptr<DataType>& index, const std::shared_ptr<DataType>& value,
                   bool ordered = false)
        : DataType(Type::DICTIONARY), index_(index), value_(value), ordered_(ordered) {}
    const std::shared_ptr<DataType>& index_type() const {
        return index_;
    }
    const std::shared_ptr<DataType>& value_type() const {
        return value_;
    }
    bool ordered() const {
        return ordered_;
    }
    std::string name() const override {
        return "dictionary";
    }
    std::string ToString(bool = false) const override {
        return "dictionary<values=" + value_->ToString() + ", indices=" + index_->ToString() +
               ", ordered=" + (ordered_ ? "1" : "0") + ">";
    }

 private:
    std::shared_ptr<DataType> index_, value_;
    bool ordered_;
};

class Schema : public std::enable_shared_from_this<Schema> {
 public:
    explicit Schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> md = nullptr)
        : fields_(std::move(f)), md_(std::move(md)) {}
    const FieldVector& fields() const {
        return fields_;
    }
    int num_fields() const {
        return static_cast<int>(fields_.size());
    }
    const std::shared_ptr<Field>& field(int i) const {
        return fields_[i];
    }
    std::vector<std::string> field_names() const {
        std::vector<std::string> r;
        for (auto& f : fields_) r.push_back(f->name());
        return r;
    }
    std::vector<int> GetAllFieldIndices(const std::string& n) const {
        std::vector<int> r;
        for (size_t i = 0; i < fields_.size(); i++) {
            if (fields_[i]->name() == n) r.push_back(static_cast<int>(i));
        }
        return r;
    }
    int GetFieldIndex(const std::string& n) const {
        auto r = GetAllFieldIndices(n);
        return r.size() == 1 ? r[0] : -1;
    }
    std::shared_ptr<Field> GetFieldByName(const std::string& n) const {
        int i = GetFieldIndex(n);
        return i < 0 ? nullptr : fields_[i];
    }
    FieldVector GetAllFieldsByName(const std::string& n) const {
        FieldVector r;
        for (int i : GetAllFieldIndices(n)) r.push_back(fields_[i]);
        return r;
    }
    const std::shared_ptr<const KeyValueMetadata>& metadata() const {
        return md_;
    }
    bool HasMetadata() const {
        return md_ && md_->size() > 0;
    }
    std::shared_ptr<Schema> WithMetadata(const std::shared_ptr<const KeyValueMetadata>& md) const {
        return std::make_shared<Schema>(fields_, md);
    }
    std::shared_ptr<Schema> RemoveMetadata() const {
        return std::make_shared<Schema>(fields_);
    }
    Result<std::shared_ptr<Schema>> AddField(int i, const std::shared_ptr<Field>& f) const {
        if (i < 0 || i > num_fields()) return Status::Invalid("Invalid column index to add field.");
        auto v = fields_;
        v.insert(v.begin() + i, f);
        return std::make_shared<Schema>(v, md_);
    }
    Result<std::shared_ptr<Schema>> RemoveField(int i) const {
        if (i < 0 || i >= num_fields()) return Status::Invalid("Invalid column index to remove field.");
        auto v = fields_;
        v.erase(v.begin() + i);
        return std::make_shared<Schema>(v, md_);
    }
    Result<std::shared_ptr<Schema>> SetField(int i, const std::shared_ptr<Field>& f) const {
        if (i < 0 || i >= num_fields()) return Status::Invalid("Invalid column index to set field.");
        auto v = fields_;
        v[i] = f;
        return std::make_shared<Schema>(v, md_);
    }
    bool Equals(const Schema& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Schema>& o, bool check_metadata = false) const {
        return o && Equals(*o, check_metadata);
    }
    std::string ToString(bool show_metadata = false) const;

 private:
    FieldVector fields_;
    std::shared_ptr<const KeyValueMetadata> md_;
};
inline bool operator==(const Schema& a, const Schema& b) {
    return a.Equals(b);
}

const std::shared_ptr<DataType>& null();
const std::shared_ptr<DataType>& boolean();
const std::shared_ptr<DataType>& int8();
const std::shared_ptr<DataType>& int16();
const std::shared_ptr<DataType>& int32();
const std::shared_ptr<DataType>& int64();
const std::shared_ptr<DataType>& uint8();
const std::shared_ptr<DataType>& uint16();
const std::shared_ptr<DataType>& uint32();
const std::shared_ptr<DataType>& uint64();
const std::shared_ptr<DataType>& float32();
const std::shared_ptr<DataType>& float64();
const std::shared_ptr<DataType>& utf8();
const std::shared_ptr<DataType>& large_utf8();
const std::shared_ptr<DataType>& binary();
const std::shared_ptr<DataType>& large_binary();
const std::shared_ptr<DataType>& date32();
const std::shared_ptr<DataType>& date64();
std::shared_ptr<DataType> fixed_size_binary(int32_t w);
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s);
std::shared_ptr<DataType> decimal(int32_t p, int32_t s);
std::shared_ptr<DataType> timestamp(TimeUnit::type u);
std::shared_ptr<DataType> timestamp(TimeUnit::type u, const std::string& tz);
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t);
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v,
                              bool sorted = false);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v,
                              bool sorted = false);
std::shared_ptr<DataType> struct_(const FieldVector& f);
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i,
                                     const std::shared_ptr<DataType>& v, bool ordered = false);
std::shared_ptr<Field> field(std::string name, std::shared_ptr<DataType> type, bool nullable = true,
                             std::shared_ptr<const KeyValueMetadata> md = nullptr);
std::shared_ptr<Field> field(std::string name, std::shared_ptr<DataType> type,
                             std::shared_ptr<const KeyValueMetadata> md);
std::shared_ptr<Schema> schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> md = nullptr);
inline bool is_integer(Type::type t) {
    return t >= Type::UINT8 && t <= Type::INT64;
}
inline bool is_floating(Type::type t) {
    return t == Type::FLOAT || t == Type::DOUBLE;
}
inline bool is_primitive(Type::type t) {
    return t == Type::BOOL || is_integer(t) || is_floating(t) || t == Type::DATE32 || t == Type::TIMESTAMP;
}

}  // namespace arrow
