// Bodies for the stand-in declared in mini_base.h and mini_array.h.
#include <charconv>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <numeric>
#include <set>

#include "arrow/mini_array.h"
#include "rapidjson/document.h"

namespace arrow {

// ---------------------------------------------------------------- status
std::string Status::CodeAsString() const {
    switch (code_) {
        case StatusCode::OK:
            return "OK";
        case StatusCode::OutOfMemory:
            return "Out of memory";
        case StatusCode::KeyError:
            return "Key error";
        case StatusCode::TypeError:
            return "Type error";
        case StatusCode::Invalid:
            return "Invalid";
        case StatusCode::IOError:
            return "IOError";
        case StatusCode::CapacityError:
            return "Capacity error";
        case StatusCode::IndexError:
            return "Index error";
        case StatusCode::Cancelled:
            return "Cancelled";
        case StatusCode::NotImplemented:
            return "NotImplemented";
        case StatusCode::SerializationError:
            return "Serialization error";
        default:
            return "Unknown error";
    }
}

// ---------------------------------------------------------------- memory
namespace {
class MallocPool : public MemoryPool {
 public:
    using MemoryPool::Allocate;
    using MemoryPool::Free;
    using MemoryPool::Reallocate;
    Status Allocate(int64_t size, int64_t alignment, uint8_t** out) override {
        if (size < 0) return Status::Invalid("negative malloc size");
        if (posix_memalign(reinterpret_cast<void**>(out), alignment,
                           static_cast<size_t>(std::max<int64_t>(size, 1))) != 0) {
            return Status::OutOfMemory("malloc of size ", size, " failed");
        }
        stats_.DidAllocateBytes(size);
        return Status::OK();
    }
    Status Reallocate(int64_t old_size, int64_t new_size, int64_t alignment,
                      uint8_t** ptr) override {
        uint8_t* fresh;
        ARROW_RETURN_NOT_OK(Allocate(new_size, alignment, &fresh));
        memcpy(fresh, *ptr, static_cast<size_t>(std::min(old_size, new_size)));
        Free(*ptr, old_size, alignment);
        *ptr = fresh;
        return Status::OK();
    }
    void Free(uint8_t* b, int64_t size, int64_t) override {
        free(b);
        stats_.DidFreeBytes(size);
    }
    int64_t bytes_allocated() const override {
        return stats_.bytes_allocated();
    }
    int64_t max_memory() const override {
        return stats_.max_memory();
    }
    int64_t total_bytes_allocated() const override {
        return stats_.total_bytes_allocated();
    }
    int64_t num_allocations() const override {
        return stats_.num_allocations();
    }
    std::string backend_name() const override {
        return "system";
    }

 private:
    internal::MemoryPoolStats stats_;
};

class PoolBuffer : public ResizableBuffer {
 public:
    explicit PoolBuffer(MemoryPool* pool) : ResizableBuffer(nullptr, 0), pool_(pool) {
        capacity_ = 0;
    }
    ~PoolBuffer() override {
        if (data_) pool_->Free(mutable_data(), capacity_);
    }
    Status Reserve(int64_t cap) override {
        if (!data_ || cap > capacity_) {
            uint8_t* p = mutable_data();
            int64_t rounded = (cap + 63) / 64 * 64;
            if (p) {
                ARROW_RETURN_NOT_OK(pool_->Reallocate(capacity_, rounded, &p));
            } else {
                ARROW_RETURN_NOT_OK(pool_->Allocate(rounded, &p));
            }
            data_ = p;
            capacity_ = rounded;
        }
        return Status::OK();
    }
    Status Resize(int64_t n, bool) override {
        ARROW_RETURN_NOT_OK(Reserve(n));
        size_ = n;
        return Status::OK();
    }

 private:
    MemoryPool* pool_;
};
class StringBuffer : public Buffer {
 public:
    explicit StringBuffer(std::string s) : Buffer(nullptr, 0), s_(std::move(s)) {
        data_ = reinterpret_cast<const uint8_t*>(s_.data());
        size_ = capacity_ = static_cast<int64_t>(s_.size());
    }

 private:
    std::string s_;
};
}  // namespace

MemoryPool* default_memory_pool() {
    static auto* p = new MallocPool;
    return p;
}
std::shared_ptr<Buffer> Buffer::FromString(std::string s) {
    return std::make_shared<StringBuffer>(std::move(s));
}
Result<std::unique_ptr<ResizableBuffer>> AllocateResizableBuffer(int64_t size, MemoryPool* pool) {
    auto b = std::make_unique<PoolBuffer>(pool ? pool : default_memory_pool());
    ARROW_RETURN_NOT_OK(b->Resize(size, false));
    return std::unique_ptr<ResizableBuffer>(std::move(b));
}
Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool) {
    ARROW_ASSIGN_OR_RAISE(auto b, AllocateResizableBuffer(size, pool));
    return std::unique_ptr<Buffer>(std::move(b));
}
Status BufferBuilder::Resize(int64_t cap, bool) {
    if (!buf_) {
        ARROW_ASSIGN_OR_RAISE(auto b, AllocateResizableBuffer(cap, pool_));
        buf_ = std::move(b);
    } else {
        ARROW_RETURN_NOT_OK(buf_->Resize(cap, false));
    }
    data_ = buf_->mutable_data();
    capacity_ = buf_->capacity();
    return Status::OK();
}
Result<std::shared_ptr<Buffer>> BufferBuilder::Finish(bool) {
    if (!buf_) ARROW_RETURN_NOT_OK(Resize(0));
    ARROW_RETURN_NOT_OK(buf_->Resize(size_, false));
    if (size_ < buf_->capacity()) {
        memset(buf_->mutable_data() + size_, 0, static_cast<size_t>(buf_->capacity() - size_));
    }
    std::shared_ptr<Buffer> r = buf_;
    Reset();
    return r;
}

// ---------------------------------------------------------------- decimal
namespace {
// Powers of ten up to the 38th; asking for another one is a mistake of the caller.
struct PowersOfTen {
    std::vector<BasicDecimal128> all;
    const BasicDecimal128& operator[](int64_t n) const {
        if (n < 0 || n >= static_cast<int64_t>(all.size())) {
            fprintf(stderr, "no power of ten of a decimal: %lld\n", static_cast<long long>(n));
            abort();
        }
        return all[static_cast<size_t>(n)];
    }
};
const PowersOfTen& Powers() {
    static const PowersOfTen* p = [] {
        auto* t = new PowersOfTen;
        auto* v = &t->all;
        __int128 x = 1;
        for (int i = 0; i <= 38; i++) {
            v->push_back(BasicDecimal128::FromRaw(x));
            if (i < 38) x *= 10;
        }
        return t;
    }();
    return *p;
}
}  // namespace
bool BasicDecimal128::FitsInPrecision(int32_t p) const {
    __int128 m = Powers()[p].raw();
    return v_ > -m && v_ < m;
}
const BasicDecimal128& BasicDecimal128::GetScaleMultiplier(int32_t s) {
    return Powers()[s];
}
BasicDecimal128 BasicDecimal128::GetMaxValue(int32_t p) {
    return FromRaw(Powers()[p].raw() - 1);
}
BasicDecimal128 BasicDecimal128::GetMaxSentinel() {
    return {INT64_MAX, UINT64_MAX};
}
BasicDecimal128 BasicDecimal128::GetMinSentinel() {
    return {INT64_MIN, 0};
}
std::array<uint8_t, 16> BasicDecimal128::ToBytes() const {
    std::array<uint8_t, 16> r;
    ToBytes(r.data());
    return r;
}
BasicDecimal128 BasicDecimal128::ReduceScaleBy(int32_t n, bool round) const {
    if (n == 0) return *this;
    __int128 m = Powers()[n].raw(), q = v_ / m, r = v_ % m;
    if (round) {
        __int128 a = r < 0 ? -r : r;
        if (a >= m / 2) q += v_ < 0 ? -1 : 1;
    }
    return FromRaw(q);
}
std::string Decimal128::ToIntegerString() const {
    unsigned __int128 u = v_ < 0 ? -static_cast<unsigned __int128>(v_) : static_cast<unsigned __int128>(v_);
    std::string s;
    do {
        s.push_back(static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    } while (u);
    if (v_ < 0) s.push_back('-');
    std::reverse(s.begin(), s.end());
    return s;
}
std::string Decimal128::ToString(int32_t scale) const {
    std::string s = ToIntegerString();
    if (scale == 0) return s;
    bool neg = s[0] == '-';
    std::string d = neg ? s.substr(1) : s;
    int32_t len = static_cast<int32_t>(d.size());
    int32_t adjusted = len - 1 - scale;
    if (scale < 0 || adjusted < -6) {
        std::string r = d.substr(0, 1);
        if (len > 1) r += "." + d.substr(1);
        r += "E";
        r += adjusted >= 0 ? "+" : "";
        return (neg ? "-" : "") + r + std::to_string(adjusted);
    }
    if (len <= scale) d = std::string(static_cast<size_t>(scale - len + 1), '0') + d;
    d.insert(d.size() - static_cast<size_t>(scale), ".");
    return (neg ? "-" : "") + d;
}
Status Decimal128::FromString(std::string_view s, Decimal128* out, int32_t* precision,
                              int32_t* scale) {
    if (s.empty()) return Status::Invalid("Empty string cannot be converted to decimal128");
    size_t i = 0;
    bool neg = false;
    if (s[i] == '-' || s[i] == '+') neg = s[i++] == '-';
    std::string whole, frac;
    while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) whole.push_back(s[i++]);
    if (i < s.size() && s[i] == '.') {
        i++;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) frac.push_back(s[i++]);
    }
    int64_t exponent = 0;
    bool has_exp = false, bad = whole.empty() && frac.empty();
    if (!bad && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        i++;
        size_t b = i;
        if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
        size_t d = i;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) i++;
        if (d == i || i - d > 9) {
            bad = true;
        } else {
            exponent = atoll(std::string(s.substr(b, i - b)).c_str());
            has_exp = true;
        }
    }
    if (bad || i != s.size()) {
        return Status::Invalid("The string '", s, "' is not a valid decimal128 number");
    }
    size_t first = 0;
    while (first < whole.size() && whole[first] == '0') first++;
    int64_t significant = static_cast<int64_t>(frac.size());
    if (first < whole.size()) significant += static_cast<int64_t>(whole.size() - first);
    int32_t pr = static_cast<int32_t>(significant);
    int64_t sc = static_cast<int64_t>(frac.size());
    if (has_exp) sc = -exponent + static_cast<int64_t>(frac.size());
    if (out) {
        std::string digits = whole.substr(first) + frac;
        unsigned __int128 v = 0;
        for (char c : digits) v = v * 10 + static_cast<unsigned>(c - '0');
        __int128 r = static_cast<__int128>(neg ? -v : v);
        Decimal128 d = BasicDecimal128::FromRaw(r);
        if (sc < 0) {
            if (-sc > kMaxScale) {
                return Status::Invalid("The string '", s, "' cannot be represented as decimal128");
            }
            d = d.IncreaseScaleBy(static_cast<int32_t>(-sc));
            pr -= static_cast<int32_t>(sc);
            sc = 0;
        }
        *out = d;
    }
    if (precision) *precision = pr;
    if (scale) *scale = static_cast<int32_t>(sc);
    return Status::OK();
}
namespace {
// Exact conversion of a binary floating value times 10^scale, rounded half away from zero.
template <typename Real>
Result<Decimal128> RealToDecimal(Real v, int32_t precision, int32_t scale) {
    if (!std::isfinite(v)) {
        return Status::Invalid("Cannot convert ", v, " to Decimal128");
    }
    __float128 x = static_cast<__float128>(v);
    bool neg = x < 0;
    if (neg) x = -x;
    __float128 m = 1;
    for (int i = 0; i < std::abs(scale); i++) m *= 10;
    x = scale >= 0 ? x * m : x / m;
    __float128 lim = static_cast<__float128>(Powers()[precision].raw());
    if (x >= lim) {
        return Status::Invalid("Cannot convert ", v, " to Decimal128(precision = ", precision,
                               ", scale = ", scale, "): overflow");
    }
    __int128 q = static_cast<__int128>(x);
    if (x - static_cast<__float128>(q) >= static_cast<__float128>(0.5)) q++;
    Decimal128 d = BasicDecimal128::FromRaw(neg ? -q : q);
    if (!d.FitsInPrecision(precision)) {
        return Status::Invalid("Cannot convert ", v, " to Decimal128(precision = ", precision,
                               ", scale = ", scale, "): overflow");
    }
    return d;
}
}  // namespace
Result<Decimal128> Decimal128::FromReal(double v, int32_t p, int32_t s) {
    return RealToDecimal(v, p, s);
}
Result<Decimal128> Decimal128::FromReal(float v, int32_t p, int32_t s) {
    return RealToDecimal(v, p, s);
}
Result<Decimal128> Decimal128::FromBigEndian(const uint8_t* data, int32_t length) {
    if (length < 1 || length > 16) {
        return Status::Invalid("Length of byte array passed to Decimal128::FromBigEndian was ",
                               length, ", but must be between 1 and 16");
    }
    unsigned __int128 v = (data[0] & 0x80) ? ~static_cast<unsigned __int128>(0) : 0;
    for (int i = 0; i < length; i++) v = (v << 8) | data[i];
    return Decimal128(BasicDecimal128::FromRaw(static_cast<__int128>(v)));
}
Result<Decimal128> Decimal128::Rescale(int32_t from, int32_t to) const {
    int32_t d = to - from;
    if (d == 0) return *this;
    auto bad = [&] {
        return Status::Invalid("Rescaling Decimal128 value would cause data loss");
    };
    if (std::abs(d) > kMaxScale) return bad();
    __int128 m = Powers()[std::abs(d)].raw();
    if (d < 0) {
        if (v_ % m != 0) return bad();
        return Decimal128(FromRaw(v_ / m));
    }
    __int128 r;
    if (__builtin_mul_overflow(v_, m, &r)) return bad();
    return Decimal128(FromRaw(r));
}
double Decimal128::ToDouble(int32_t scale) const {
    __float128 x = static_cast<__float128>(v_), m = 1;
    for (int i = 0; i < std::abs(scale); i++) m *= 10;
    return static_cast<double>(scale >= 0 ? x / m : x * m);
}
float Decimal128::ToFloat(int32_t scale) const {
    __float128 x = static_cast<__float128>(v_), m = 1;
    for (int i = 0; i < std::abs(scale); i++) m *= 10;
    return static_cast<float>(scale >= 0 ? x / m : x * m);
}

// ---------------------------------------------------------------- types
bool KeyValueMetadata::Equals(const KeyValueMetadata& o) const {
    if (size() != o.size()) return false;
    std::multiset<std::pair<std::string, std::string>> a, b;
    for (int64_t i = 0; i < size(); i++) a.emplace(key(i), value(i)), b.emplace(o.key(i), o.value(i));
    return a == b;
}
std::string KeyValueMetadata::ToString() const {
    std::string s = "\n-- metadata --";
    for (int64_t i = 0; i < size(); i++) s += "\n" + key(i) + ": " + value(i);
    return s;
}
std::shared_ptr<KeyValueMetadata> key_value_metadata(
    const std::unordered_map<std::string, std::string>& m) {
    return std::make_shared<KeyValueMetadata>(m);
}
std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> k,
                                                     std::vector<std::string> v) {
    return std::make_shared<KeyValueMetadata>(std::move(k), std::move(v));
}
namespace internal {
std::string ToString(Type::type id) {
    static const std::map<Type::type, const char*> n = {
        {Type::NA, "NA"},           {Type::BOOL, "BOOL"},
        {Type::INT8, "INT8"},       {Type::INT16, "INT16"},
        {Type::INT32, "INT32"},     {Type::INT64, "INT64"},
        {Type::UINT8, "UINT8"},     {Type::UINT16, "UINT16"},
        {Type::UINT32, "UINT32"},   {Type::UINT64, "UINT64"},
        {Type::FLOAT, "FLOAT"},     {Type::DOUBLE, "DOUBLE"},
        {Type::STRING, "STRING"},   {Type::BINARY, "BINARY"},
        {Type::DATE32, "DATE32"},   {Type::TIMESTAMP, "TIMESTAMP"},
        {Type::LIST, "LIST"},       {Type::MAP, "MAP"},
        {Type::STRUCT, "STRUCT"},   {Type::DECIMAL128, "DECIMAL128"},
        {Type::DICTIONARY, "DICTIONARY"}, {Type::LARGE_BINARY, "LARGE_BINARY"},
        {Type::LARGE_STRING, "LARGE_STRING"}, {Type::FIXED_SIZE_BINARY, "FIXED_SIZE_BINARY"}};
    auto it = n.find(id);
    return it == n.end() ? "TYPE" + std::to_string(static_cast<int>(id)) : it->second;
}
std::string ToString(TimeUnit::type u) {
    static const char* n[] = {"SECOND", "MILLI", "MICRO", "NANO"};
    return n[u];
}
}  // namespace internal

bool DataType::Equals(const DataType& o, bool md) const {
    if (this == &o) return true;
    if (id_ != o.id_) return false;
    switch (id_) {
        case Type::DECIMAL128: {
            auto &a = static_cast<const DecimalType&>(*this), &b = static_cast<const DecimalType&>(o);
            return a.precision() == b.precision() && a.scale() == b.scale();
        }
        case Type::FIXED_SIZE_BINARY:
            return bit_width() == o.bit_width();
        case Type::TIMESTAMP: {
            auto &a = static_cast<const TimestampType&>(*this),
                 &b = static_cast<const TimestampType&>(o);
            return a.unit() == b.unit() && a.timezone() == b.timezone();
        }
        case Type::DICTIONARY: {
            auto &a = static_cast<const DictionaryType&>(*this),
                 &b = static_cast<const DictionaryType&>(o);
            return a.index_type()->Equals(b.index_type(), md) &&
                   a.value_type()->Equals(b.value_type(), md) && a.ordered() == b.ordered();
        }
        case Type::LIST: {
            auto &a = children_[0], &b = o.children_[0];
            if (md) return a->Equals(b, md);
            return a->nullable() == b->nullable() && a->type()->Equals(b->type(), md);
        }
        case Type::MAP: {
            auto &a = static_cast<const MapType&>(*this), &b = static_cast<const MapType&>(o);
            if (a.keys_sorted() != b.keys_sorted()) return false;
            if (md) {
                return a.key_field()->Equals(b.key_field(), md) &&
                       a.item_field()->Equals(b.item_field(), md);
            }
            return a.item_field()->nullable() == b.item_field()->nullable() &&
                   a.key_type()->Equals(b.key_type()) && a.item_type()->Equals(b.item_type());
        }
        case Type::STRUCT: {
            if (children_.size() != o.children_.size()) return false;
            for (size_t i = 0; i < children_.size(); i++) {
                if (!children_[i]->Equals(o.children_[i], md)) return false;
            }
            return true;
        }
        default:
            return true;
    }
}
bool Field::Equals(const Field& o, bool md) const {
    if (this == &o) return true;
    if (name_ != o.name_ || nullable_ != o.nullable_ || !type_->Equals(*o.type_, md)) return false;
    if (!md) return true;
    if (HasMetadata() != o.HasMetadata()) return false;
    return !HasMetadata() || md_->Equals(*o.md_);
}
std::string Field::ToString(bool sm) const {
    std::string s = name_ + ": " + type_->ToString(sm);
    if (!nullable_) s += " not null";
    if (sm && HasMetadata()) s += md_->ToString();
    return s;
}
bool Schema::Equals(const Schema& o, bool md) const {
    if (this == &o) return true;
    if (num_fields() != o.num_fields()) return false;
    if (md) {
        if (HasMetadata() != o.HasMetadata()) return false;
        if (HasMetadata() && !md_->Equals(*o.md_)) return false;
    }
    for (int i = 0; i < num_fields(); i++) {
        if (!fields_[i]->Equals(*o.fields_[i], md)) return false;
    }
    return true;
}
std::string Schema::ToString(bool sm) const {
    std::string s;
    for (size_t i = 0; i < fields_.size(); i++) {
        if (i) s += "\n";
        s += fields_[i]->ToString(sm);
    }
    if (sm && HasMetadata()) s += md_->ToString();
    return s;
}
MapType::MapType(std::shared_ptr<Field> k, std::shared_ptr<Field> item, bool sorted)
    : ListType(std::make_shared<Field>(
          "entries", std::make_shared<StructType>(FieldVector{std::move(k), std::move(item)}),
          false)),
      sorted_(sorted) {
    id_ = Type::MAP;
}
std::string MapType::ToString(bool sm) const {
    auto part = [&](const Field& f, const char* std_name, bool show_null) {
        std::string r = f.type()->ToString(sm);
        if (f.name() != std_name) r += " ('" + f.name() + "')";
        (void)show_null;
        return r;
    };
    std::string s = "map<" + part(*key_field(), "key", false) + ", " +
                    part(*item_field(), "value", true);
    if (sorted_) s += ", keys_sorted";
    if (!item_field()->nullable()) s += " not null";
    if (value_field()->name() != "entries") s += " ('" + value_field()->name() + "')";
    return s + ">";
}
std::string StructType::ToString(bool sm) const {
    std::string s = "struct<";
    for (size_t i = 0; i < children_.size(); i++) {
        if (i) s += ", ";
        s += children_[i]->ToString(sm);
    }
    return s + ">";
}
Result<std::shared_ptr<DataType>> Decimal128Type::Make(int32_t p, int32_t s) {
    if (p < kMinPrecision || p > kMaxPrecision) {
        return Status::Invalid("Decimal precision out of range [1, 38]: ", p);
    }
    return std::shared_ptr<DataType>(std::make_shared<Decimal128Type>(p, s));
}
#define MINI_SINGLETON(F, T)                                                         \
    const std::shared_ptr<DataType>& F() {                                           \
        static const auto* t = new std::shared_ptr<DataType>(std::make_shared<T>()); \
        return *t;                                                                   \
    }
MINI_SINGLETON(null, NullType)
MINI_SINGLETON(boolean, BooleanType)
MINI_SINGLETON(int8, Int8Type)
MINI_SINGLETON(int16, Int16Type)
MINI_SINGLETON(int32, Int32Type)
MINI_SINGLETON(int64, Int64Type)
MINI_SINGLETON(uint8, UInt8Type)
MINI_SINGLETON(uint16, UInt16Type)
MINI_SINGLETON(uint32, UInt32Type)
MINI_SINGLETON(uint64, UInt64Type)
MINI_SINGLETON(float32, FloatType)
MINI_SINGLETON(float64, DoubleType)
MINI_SINGLETON(utf8, StringType)
MINI_SINGLETON(large_utf8, LargeStringType)
MINI_SINGLETON(binary, BinaryType)
MINI_SINGLETON(large_binary, LargeBinaryType)
MINI_SINGLETON(date32, Date32Type)
MINI_SINGLETON(date64, Date64Type)
std::shared_ptr<DataType> fixed_size_binary(int32_t w) {
    return std::make_shared<FixedSizeBinaryType>(w);
}
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s) {
    return std::make_shared<Decimal128Type>(p, s);
}
std::shared_ptr<DataType> decimal(int32_t p, int32_t s) {
    return decimal128(p, s);
}
std::shared_ptr<DataType> timestamp(TimeUnit::type u) {
    return std::make_shared<TimestampType>(u);
}
std::shared_ptr<DataType> timestamp(TimeUnit::type u, const std::string& tz) {
    return std::make_shared<TimestampType>(u, tz);
}
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t) {
    return std::make_shared<ListType>(t);
}
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f) {
    return std::make_shared<ListType>(f);
}
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool s) {
    return std::make_shared<MapType>(std::move(k), std::move(v), s);
}
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool s) {
    return std::make_shared<MapType>(std::move(k), std::move(v), s);
}
std::shared_ptr<DataType> struct_(const FieldVector& f) {
    return std::make_shared<StructType>(f);
}
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i,
                                     const std::shared_ptr<DataType>& v, bool o) {
    return std::make_shared<DictionaryType>(i, v, o);
}
std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, bool nullable,
                             std::shared_ptr<const KeyValueMetadata> md) {
    return std::make_shared<Field>(std::move(n), std::move(t), nullable, std::move(md));
}
std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t,
                             std::shared_ptr<const KeyValueMetadata> md) {
    return std::make_shared<Field>(std::move(n), std::move(t), true, std::move(md));
}
std::shared_ptr<Schema> schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> md) {
    return std::make_shared<Schema>(std::move(f), std::move(md));
}

// ---------------------------------------------------------------- arrays
std::shared_ptr<ArrayData> ArrayData::Slice(int64_t off, int64_t len) const {
    len = std::max<int64_t>(0, std::min(length - off, len));
    auto r = Copy();
    r->length = len;
    r->offset = offset + off;
    int64_t nc = null_count.load();
    r->null_count = nc == length && length > 0 ? len : (nc == 0 ? 0 : kUnknownNullCount);
    return r;
}
int64_t ArrayData::GetNullCount() const {
    int64_t n = null_count.load();
    if (n == kUnknownNullCount) {
        n = 0;
        if (type->id() == Type::NA) {
            n = length;
        } else {
            for (int64_t i = 0; i < length; i++) n += IsNull(i);
        }
        null_count = n;
    }
    return n;
}

std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d) {
    switch (d->type->id()) {
#define MINI_CASE(ID, A) \
    case Type::ID:       \
        return std::make_shared<A>(d);
        MINI_CASE(NA, NullArray)
        MINI_CASE(BOOL, BooleanArray)
        MINI_CASE(INT8, Int8Array)
        MINI_CASE(INT16, Int16Array)
        MINI_CASE(INT32, Int32Array)
        MINI_CASE(INT64, Int64Array)
        MINI_CASE(UINT8, UInt8Array)
        MINI_CASE(UINT16, UInt16Array)
        MINI_CASE(UINT32, UInt32Array)
        MINI_CASE(UINT64, UInt64Array)
        MINI_CASE(FLOAT, FloatArray)
        MINI_CASE(DOUBLE, DoubleArray)
        MINI_CASE(DATE32, Date32Array)
        MINI_CASE(TIMESTAMP, TimestampArray)
        MINI_CASE(STRING, StringArray)
        MINI_CASE(BINARY, BinaryArray)
        MINI_CASE(LARGE_STRING, LargeStringArray)
        MINI_CASE(LARGE_BINARY, LargeBinaryArray)
        MINI_CASE(FIXED_SIZE_BINARY, FixedSizeBinaryArray)
        MINI_CASE(DECIMAL128, Decimal128Array)
        MINI_CASE(LIST, ListArray)
        MINI_CASE(MAP, MapArray)
        MINI_CASE(STRUCT, StructArray)
        MINI_CASE(DICTIONARY, DictionaryArray)
#undef MINI_CASE
        default:
            fprintf(stderr, "MakeArray: unsupported type\n");
            std::abort();
    }
}
std::shared_ptr<Array> Array::Slice(int64_t off, int64_t len) const {
    return MakeArray(data_->Slice(off, len));
}
Result<std::shared_ptr<Array>> Array::View(const std::shared_ptr<DataType>& t) const {
    if (t->bit_width() != type()->bit_width() || t->bit_width() < 0) {
        return Status::Invalid("Can't view array of type ", type()->ToString(), " as ", t->ToString());
    }
    auto d = data_->Copy();
    d->type = t;
    return MakeArray(d);
}
Status Array::Validate() const {
    if (length() < 0) return Status::Invalid("Array length is negative");
    auto need = [&](int i, int64_t bytes) {
        auto& b = data_->buffers[i];
        if (bytes > 0 && (!b || b->size() < bytes)) {
            return Status::Invalid("Buffer #", i, " too small in array of type ", type()->ToString(),
                                   " and length ", length());
        }
        return Status::OK();
    };
    int64_t end = length() + offset();
    if (type_id() != Type::NA && data_->buffers[0]) ARROW_RETURN_NOT_OK(need(0, bit_util::BytesForBits(end)));
    switch (type_id()) {
        case Type::NA:
        case Type::DICTIONARY:
            return Status::OK();
        case Type::STRING:
        case Type::BINARY: {
            if (length() == 0) return Status::OK();
            ARROW_RETURN_NOT_OK(need(1, (end + 1) * 4));
            auto* o = data_->GetValues<int32_t>(1);
            for (int64_t i = 0; i < length(); i++) {
                if (o[i] > o[i + 1] || o[i] < 0) return Status::Invalid("Offset invariant failure");
            }
            return need(2, o[length()]);
        }
        case Type::LIST:
        case Type::MAP: {
            if (length() == 0) return Status::OK();
            ARROW_RETURN_NOT_OK(need(1, (end + 1) * 4));
            auto* o = data_->GetValues<int32_t>(1);
            for (int64_t i = 0; i < length(); i++) {
                if (o[i] > o[i + 1] || o[i] < 0) return Status::Invalid("Offset invariant failure");
            }
            auto child = static_cast<const ListArray&>(*this).values();
            if (o[length()] > child->length()) return Status::Invalid("List child too short");
            return child->Validate();
        }
        case Type::STRUCT: {
            auto& s = static_cast<const StructArray&>(*this);
            for (int i = 0; i < num_fields(); i++) {
                if (data_->child_data[i]->length < end) {
                    return Status::Invalid("Struct child array #", i,
                                           " has length smaller than expected for struct array (",
                                           data_->child_data[i]->length, " < ", end, ")");
                }
                if (!data_->child_data[i]->type->Equals(type()->field(i)->type())) {
                    return Status::Invalid("Struct child array #", i, " does not match type field: ",
                                           data_->child_data[i]->type->ToString(), " vs ",
                                           type()->field(i)->type()->ToString());
                }
                ARROW_RETURN_NOT_OK(s.field(i)->Validate());
            }
            return Status::OK();
        }
        case Type::LARGE_BINARY:
        case Type::LARGE_STRING:
            return length() == 0 ? Status::OK() : need(1, (end + 1) * 8);
        default:
            return need(1, bit_util::BytesForBits(end * type()->bit_width()));
    }
}

void ListArray::Init(const std::shared_ptr<ArrayData>& d) {
    SetData(d);
    values_ = MakeArray(d->child_data[0]);
}
std::shared_ptr<Array> ListArray::offsets() const {
    return std::make_shared<Int32Array>(length() + 1, data_->buffers[1], nullptr, 0, offset());
}
Result<std::shared_ptr<ListArray>> ListArray::FromArrays(const Array& offsets, const Array& values,
                                                         MemoryPool*) {
    auto& o = static_cast<const Int32Array&>(offsets);
    auto buf = SliceBuffer(o.values(), o.offset() * 4, o.length() * 4);
    return std::make_shared<ListArray>(list(values.type()), o.length() - 1, buf,
                                       MakeArray(values.data()));
}
MapArray::MapArray(const std::shared_ptr<ArrayData>& d) {
    Init(d);
    auto& s = d->child_data[0];
    auto box = [&](int i) {
        auto c = s->child_data[i];
        if (s->offset != 0 || c->length != s->length) c = c->Slice(s->offset, s->length);
        return MakeArray(c);
    };
    keys_ = box(0);
    items_ = box(1);
}
MapArray::MapArray(const std::shared_ptr<DataType>& t, int64_t length,
                   const std::shared_ptr<Buffer>& off, const std::shared_ptr<Array>& keys,
                   const std::shared_ptr<Array>& items, const std::shared_ptr<Buffer>& nulls,
                   int64_t nc, int64_t o)
    : MapArray(ArrayData::Make(
          t, length, std::vector<std::shared_ptr<Buffer>>{nulls, off},
          ArrayDataVector{ArrayData::Make(static_cast<const MapType&>(*t).value_type(),
                                          keys->length(), std::vector<std::shared_ptr<Buffer>>{nullptr},
                                          ArrayDataVector{keys->data(), items->data()}, 0)},
          nc, o)) {}
Result<std::shared_ptr<Array>> MapArray::FromArrays(const std::shared_ptr<Array>& offsets,
                                                    const std::shared_ptr<Array>& keys,
                                                    const std::shared_ptr<Array>& items,
                                                    MemoryPool*) {
    auto& o = static_cast<const Int32Array&>(*offsets);
    auto buf = SliceBuffer(o.values(), o.offset() * 4, o.length() * 4);
    return std::shared_ptr<Array>(std::make_shared<MapArray>(
        map(keys->type(), items->type()), o.length() - 1, buf, keys, items));
}
StructArray::StructArray(const std::shared_ptr<ArrayData>& d) {
    Init(d);
}
StructArray::StructArray(const std::shared_ptr<DataType>& t, int64_t length,
                         const ArrayVector& children, std::shared_ptr<Buffer> nulls, int64_t nc,
                         int64_t off) {
    ArrayDataVector c;
    for (auto& a : children) c.push_back(a->data());
    Init(ArrayData::Make(t, length, std::vector<std::shared_ptr<Buffer>>{std::move(nulls)}, c, nc,
                         off));
}
void StructArray::Init(const std::shared_ptr<ArrayData>& d) {
    SetData(d);
    for (auto& c : d->child_data) {
        boxed_.push_back(MakeArray(d->offset != 0 || c->length != d->length
                                       ? c->Slice(d->offset, d->length)
                                       : c));
    }
}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& children,
                                                       const FieldVector& fields,
                                                       std::shared_ptr<Buffer> nulls, int64_t nc,
                                                       int64_t off) {
    if (children.size() != fields.size()) return Status::Invalid("Mismatching number of fields and children");
    if (children.empty()) return Status::Invalid("Can't infer struct array length with 0 child arrays");
    int64_t n = children[0]->length();
    for (auto& c : children) {
        if (c->length() != n) return Status::Invalid("Mismatching child array lengths");
    }
    if (off > n) return Status::IndexError("Offset greater than length of child arrays");
    if (!nulls) {
        if (nc > 0) return Status::Invalid("null_count = ", nc, " but no null bitmap given");
        nc = 0;
    }
    return std::make_shared<StructArray>(struct_(fields), n - off, children, nulls, nc, off);
}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& children,
                                                       const std::vector<std::string>& names,
                                                       std::shared_ptr<Buffer> nulls, int64_t nc,
                                                       int64_t off) {
    if (children.size() != names.size()) return Status::Invalid("Mismatching number of field names and child arrays");
    FieldVector f;
    for (size_t i = 0; i < names.size(); i++) f.push_back(arrow::field(names[i], children[i]->type()));
    return Make(children, f, nulls, nc, off);
}
Result<ArrayVector> StructArray::Flatten(MemoryPool* pool) const {
    ArrayVector out;
    for (auto& c : boxed_) {
        if (null_count() == 0) {
            out.push_back(c);
            continue;
        }
        auto d = c->data()->Copy();
        int64_t bits = d->offset + d->length;
        ARROW_ASSIGN_OR_RAISE(auto b, AllocateBuffer(bit_util::BytesForBits(bits), pool));
        memset(b->mutable_data(), 0, static_cast<size_t>(b->size()));
        for (int64_t i = 0; i < length(); i++) {
            bit_util::SetBitTo(b->mutable_data(), d->offset + i, IsValid(i) && c->IsValid(i));
        }
        if (d->type->id() != Type::NA) d->buffers[0] = std::move(b);
        d->null_count = kUnknownNullCount;
        out.push_back(MakeArray(d));
    }
    return out;
}
DictionaryArray::DictionaryArray(const std::shared_ptr<ArrayData>& d) {
    SetData(d);
    auto i = d->Copy();
    i->type = static_cast<const DictionaryType&>(*d->type).index_type();
    i->dictionary = nullptr;
    indices_ = MakeArray(i);
    dict_ = MakeArray(d->dictionary);
}
DictionaryArray::DictionaryArray(const std::shared_ptr<DataType>& t,
                                 const std::shared_ptr<Array>& indices,
                                 const std::shared_ptr<Array>& dict) {
    auto d = indices->data()->Copy();
    d->type = t;
    d->dictionary = dict->data();
    SetData(d);
    indices_ = indices;
    dict_ = dict;
}
int64_t DictionaryArray::GetValueIndex(int64_t i) const {
    switch (indices_->type_id()) {
        case Type::INT8:
            return static_cast<const Int8Array&>(*indices_).Value(i);
        case Type::INT16:
            return static_cast<const Int16Array&>(*indices_).Value(i);
        case Type::INT32:
            return static_cast<const Int32Array&>(*indices_).Value(i);
        default:
            return static_cast<const Int64Array&>(*indices_).Value(i);
    }
}

namespace {
bool ElementEquals(const Array& a, int64_t i, const Array& b, int64_t j, const EqualOptions& opt) {
    if (a.IsNull(i) || b.IsNull(j)) return a.IsNull(i) && b.IsNull(j);
    switch (a.type_id()) {
        case Type::NA:
            return true;
        case Type::BOOL:
            return static_cast<const BooleanArray&>(a).Value(i) ==
                   static_cast<const BooleanArray&>(b).Value(j);
#define MINI_CASE(ID, A) \
    case Type::ID:       \
        return static_cast<const A&>(a).GetView(i) == static_cast<const A&>(b).GetView(j);
            MINI_CASE(INT8, Int8Array)
            MINI_CASE(INT16, Int16Array)
            MINI_CASE(INT32, Int32Array)
            MINI_CASE(INT64, Int64Array)
            MINI_CASE(UINT8, UInt8Array)
            MINI_CASE(UINT16, UInt16Array)
            MINI_CASE(UINT32, UInt32Array)
            MINI_CASE(UINT64, UInt64Array)
            MINI_CASE(DATE32, Date32Array)
            MINI_CASE(TIMESTAMP, TimestampArray)
            MINI_CASE(STRING, StringArray)
            MINI_CASE(BINARY, BinaryArray)
            MINI_CASE(LARGE_STRING, LargeStringArray)
            MINI_CASE(LARGE_BINARY, LargeBinaryArray)
            MINI_CASE(FIXED_SIZE_BINARY, FixedSizeBinaryArray)
            MINI_CASE(DECIMAL128, Decimal128Array)
#undef MINI_CASE
        case Type::FLOAT: {
            float x = static_cast<const FloatArray&>(a).Value(i),
                  y = static_cast<const FloatArray&>(b).Value(j);
            return x == y || (opt.nans && std::isnan(x) && std::isnan(y)) ||
                   (opt.approx && std::fabs(x - y) <= 1e-5);
        }
        case Type::DOUBLE: {
            double x = static_cast<const DoubleArray&>(a).Value(i),
                   y = static_cast<const DoubleArray&>(b).Value(j);
            return x == y || (opt.nans && std::isnan(x) && std::isnan(y)) ||
                   (opt.approx && std::fabs(x - y) <= 1e-5);
        }
        case Type::LIST:
        case Type::MAP: {
            auto &x = static_cast<const ListArray&>(a), &y = static_cast<const ListArray&>(b);
            int64_t n = x.value_length(i);
            if (n != y.value_length(j)) return false;
            for (int64_t k = 0; k < n; k++) {
                if (!ElementEquals(*x.values(), x.value_offset(i) + k, *y.values(),
                                   y.value_offset(j) + k, opt)) {
                    return false;
                }
            }
            return true;
        }
        case Type::STRUCT: {
            auto &x = static_cast<const StructArray&>(a), &y = static_cast<const StructArray&>(b);
            for (int k = 0; k < x.num_fields(); k++) {
                if (!ElementEquals(*x.field(k), i, *y.field(k), j, opt)) return false;
            }
            return true;
        }
        case Type::DICTIONARY: {
            auto &x = static_cast<const DictionaryArray&>(a),
                 &y = static_cast<const DictionaryArray&>(b);
            return ElementEquals(*x.dictionary(), x.GetValueIndex(i), *y.dictionary(),
                                 y.GetValueIndex(j), opt);
        }
        default:
            return false;
    }
}
std::string Civil(int64_t days) {
    int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
    int64_t doe = z - era * 146097;
    int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    int64_t mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    if (m <= 2) y++;
    char buf[40];
    snprintf(buf, sizeof buf, "%s%04" PRId64 "-%02" PRId64 "-%02" PRId64, y < 0 ? "-" : "",
             y < 0 ? -y : y, m, d);
    return buf;
}
int64_t DaysFromCivil(int64_t y, int64_t m, int64_t d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
    int64_t doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1;
    int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
int64_t FloorDiv(int64_t a, int64_t b) {
    int64_t q = a / b;
    return q * b > a ? q - 1 : q;
}
int64_t UnitsPerSecond(TimeUnit::type u) {
    static const int64_t k[] = {1, 1000, 1000000, 1000000000};
    return k[u];
}
std::string FormatTimestamp(int64_t v, TimeUnit::type u) {
    int64_t k = UnitsPerSecond(u), sec = FloorDiv(v, k), frac = v - sec * k;
    int64_t day = FloorDiv(sec, 86400), s = sec - day * 86400;
    char buf[64];
    snprintf(buf, sizeof buf, " %02d:%02d:%02d", static_cast<int>(s / 3600),
             static_cast<int>(s / 60 % 60), static_cast<int>(s % 60));
    std::string r = Civil(day) + buf;
    if (u != TimeUnit::SECOND) {
        snprintf(buf, sizeof buf, ".%0*" PRId64, static_cast<int>(u) * 3, frac);
        r += buf;
    }
    return r;
}
template <typename Real>
std::string FormatReal(Real v) {
    if (std::isnan(v)) return "nan";
    if (std::isinf(v)) return v < 0 ? "-inf" : "inf";
    if (v == 0) return std::signbit(v) ? "-0" : "0";
    char buf[64];
    auto r = std::to_chars(buf, buf + sizeof buf, v, std::chars_format::scientific);
    std::string s(buf, r.ptr);
    size_t e = s.find('e');
    int exp = atoi(s.c_str() + e + 1);
    std::string mant = s.substr(0, e), digits;
    bool neg = mant[0] == '-';
    for (char c : mant) {
        if (isdigit(static_cast<unsigned char>(c))) digits.push_back(c);
    }
    std::string out;
    if (exp >= -5 && exp < 15) {
        if (exp < 0) {
            out = "0." + std::string(static_cast<size_t>(-exp - 1), '0') + digits;
        } else if (static_cast<int>(digits.size()) <= exp + 1) {
            out = digits + std::string(static_cast<size_t>(exp + 1) - digits.size(), '0');
        } else {
            out = digits.substr(0, static_cast<size_t>(exp + 1)) + "." +
                  digits.substr(static_cast<size_t>(exp + 1));
        }
    } else {
        out = digits.substr(0, 1);
        if (digits.size() > 1) out += "." + digits.substr(1);
        out += "e";
        out += exp < 0 ? "-" : "+";
        out += std::to_string(std::abs(exp));
    }
    return (neg ? "-" : "") + out;
}
std::string ElementText(const Array& a, int64_t i) {
    if (a.IsNull(i)) return "null";
    switch (a.type_id()) {
        case Type::BOOL:
            return static_cast<const BooleanArray&>(a).Value(i) ? "true" : "false";
#define MINI_CASE(ID, A) \
    case Type::ID:       \
        return std::to_string(static_cast<const A&>(a).Value(i));
            MINI_CASE(INT8, Int8Array)
            MINI_CASE(INT16, Int16Array)
            MINI_CASE(INT32, Int32Array)
            MINI_CASE(INT64, Int64Array)
            MINI_CASE(UINT8, UInt8Array)
            MINI_CASE(UINT16, UInt16Array)
            MINI_CASE(UINT32, UInt32Array)
            MINI_CASE(UINT64, UInt64Array)
#undef MINI_CASE
        case Type::FLOAT:
            return FormatReal(static_cast<const FloatArray&>(a).Value(i));
        case Type::DOUBLE:
            return FormatReal(static_cast<const DoubleArray&>(a).Value(i));
        case Type::DATE32:
            return Civil(static_cast<const Date32Array&>(a).Value(i));
        case Type::TIMESTAMP:
            return FormatTimestamp(static_cast<const TimestampArray&>(a).Value(i),
                                   static_cast<const TimestampType&>(*a.type()).unit());
        case Type::STRING:
            return "\"" + static_cast<const StringArray&>(a).GetString(i) + "\"";
        case Type::LARGE_STRING:
            return "\"" + static_cast<const LargeStringArray&>(a).GetString(i) + "\"";
        case Type::BINARY:
        case Type::LARGE_BINARY:
        case Type::FIXED_SIZE_BINARY: {
            std::string s, raw = a.type_id() == Type::BINARY
                                     ? static_cast<const BinaryArray&>(a).GetString(i)
                                 : a.type_id() == Type::LARGE_BINARY
                                     ? static_cast<const LargeBinaryArray&>(a).GetString(i)
                                     : static_cast<const FixedSizeBinaryArray&>(a).GetString(i);
            char b[4];
            for (char c : raw) {
                snprintf(b, sizeof b, "%02X", static_cast<unsigned char>(c));
                s += b;
            }
            return s;
        }
        case Type::DECIMAL128:
            return static_cast<const Decimal128Array&>(a).FormatValue(i);
        case Type::LIST:
        case Type::MAP: {
            auto& l = static_cast<const ListArray&>(a);
            std::string s = "[";
            for (int64_t k = 0; k < l.value_length(i); k++) {
                if (k) s += ",";
                s += ElementText(*l.values(), l.value_offset(i) + k);
            }
            return s + "]";
        }
        case Type::STRUCT: {
            auto& st = static_cast<const StructArray&>(a);
            std::string s = "{";
            for (int k = 0; k < st.num_fields(); k++) {
                if (k) s += ",";
                s += st.type()->field(k)->name() + ":" + ElementText(*st.field(k), i);
            }
            return s + "}";
        }
        case Type::DICTIONARY: {
            auto& d = static_cast<const DictionaryArray&>(a);
            return ElementText(*d.dictionary(), d.GetValueIndex(i));
        }
        default:
            return "?";
    }
}
}  // namespace

bool Array::RangeEquals(int64_t start, int64_t end, int64_t other, const Array& o,
                        const EqualOptions& opt) const {
    if (!type()->Equals(*o.type())) return false;
    if (end - start > o.length() - other) return false;
    for (int64_t i = start; i < end; i++) {
        if (!ElementEquals(*this, i, o, other + i - start, opt)) return false;
    }
    return true;
}
bool Array::Equals(const Array& o, const EqualOptions& opt) const {
    return length() == o.length() && RangeEquals(0, length(), 0, o, opt);
}
std::string Array::ToString() const {
    std::string s = "[";
    for (int64_t i = 0; i < length(); i++) {
        if (i) s += ",";
        s += "\n  " + ElementText(*this, i);
    }
    return s + "\n]";
}
bool RecordBatch::Equals(const RecordBatch& o) const {
    if (!schema_->Equals(*o.schema_) || n_ != o.n_) return false;
    for (size_t i = 0; i < columns_.size(); i++) {
        if (!columns_[i]->Equals(o.columns_[i])) return false;
    }
    return true;
}
Result<std::shared_ptr<RecordBatch>> RecordBatch::FromStructArray(const std::shared_ptr<Array>& a) {
    if (a->type_id() != Type::STRUCT) return Status::TypeError("Cannot construct record batch from array of type ", a->type()->ToString());
    auto& s = static_cast<const StructArray&>(*a);
    ARROW_ASSIGN_OR_RAISE(auto cols, s.Flatten());
    return Make(arrow::schema(a->type()->fields()), a->length(), cols);
}
bool ChunkedArray::Equals(const ChunkedArray& o, const EqualOptions& opt) const {
    if (length_ != o.length_ || !type_->Equals(o.type_)) return false;
    if (length_ == 0) return true;
    auto a = Concatenate(chunks_), b = Concatenate(o.chunks_);
    return a.ok() && b.ok() && (*a)->Equals(*b, opt);
}
std::string ChunkedArray::ToString() const {
    std::string s = "[";
    for (auto& c : chunks_) s += c->ToString();
    return s + "]";
}

// ---------------------------------------------------------------- builders
Status ArrayBuilder::Finish(std::shared_ptr<Array>* out) {
    std::shared_ptr<ArrayData> d;
    ARROW_RETURN_NOT_OK(FinishInternal(&d));
    *out = MakeArray(d);
    capacity_ = 0;
    return Status::OK();
}
Status ArrayBuilder::AppendArraySlice(const Array& a, int64_t off, int64_t len) {
    for (int64_t i = off; i < off + len; i++) {
        if (a.IsNull(i)) {
            ARROW_RETURN_NOT_OK(AppendNull());
            continue;
        }
        switch (a.type_id()) {
#define MINI_CASE(ID, N)                                                               \
    case Type::ID:                                                                     \
        ARROW_RETURN_NOT_OK(                                                           \
            static_cast<N##Builder*>(this)->Append(static_cast<const N##Array&>(a).GetView(i))); \
        break;
            MINI_CASE(BOOL, Boolean)
            MINI_CASE(INT8, Int8)
            MINI_CASE(INT16, Int16)
            MINI_CASE(INT32, Int32)
            MINI_CASE(INT64, Int64)
            MINI_CASE(UINT8, UInt8)
            MINI_CASE(UINT16, UInt16)
            MINI_CASE(UINT32, UInt32)
            MINI_CASE(UINT64, UInt64)
            MINI_CASE(FLOAT, Float)
            MINI_CASE(DOUBLE, Double)
            MINI_CASE(DATE32, Date32)
            MINI_CASE(TIMESTAMP, Timestamp)
            MINI_CASE(STRING, String)
            MINI_CASE(BINARY, Binary)
            MINI_CASE(LARGE_STRING, LargeString)
            MINI_CASE(LARGE_BINARY, LargeBinary)
            MINI_CASE(FIXED_SIZE_BINARY, FixedSizeBinary)
#undef MINI_CASE
            case Type::DECIMAL128:
                ARROW_RETURN_NOT_OK(static_cast<FixedSizeBinaryBuilder*>(this)->Append(
                    static_cast<const FixedSizeBinaryArray&>(a).GetValue(i)));
                break;
            case Type::LIST: {
                auto& l = static_cast<const ListArray&>(a);
                auto* b = static_cast<ListBuilder*>(this);
                ARROW_RETURN_NOT_OK(b->Append());
                ARROW_RETURN_NOT_OK(b->value_builder()->AppendArraySlice(
                    *l.values(), l.value_offset(i), l.value_length(i)));
                break;
            }
            case Type::MAP: {
                auto& l = static_cast<const MapArray&>(a);
                auto* b = static_cast<MapBuilder*>(this);
                ARROW_RETURN_NOT_OK(b->Append());
                ARROW_RETURN_NOT_OK(b->key_builder()->AppendArraySlice(*l.keys(), l.value_offset(i),
                                                                       l.value_length(i)));
                ARROW_RETURN_NOT_OK(b->item_builder()->AppendArraySlice(
                    *l.items(), l.value_offset(i), l.value_length(i)));
                break;
            }
            case Type::STRUCT: {
                auto& s = static_cast<const StructArray&>(a);
                auto* b = static_cast<StructBuilder*>(this);
                for (int k = 0; k < s.num_fields(); k++) {
                    ARROW_RETURN_NOT_OK(b->field_builder(k)->AppendArraySlice(*s.field(k), i, 1));
                }
                ARROW_RETURN_NOT_OK(b->Append());
                break;
            }
            case Type::DICTIONARY: {
                auto& d = static_cast<const DictionaryArray&>(a);
                ARROW_RETURN_NOT_OK(static_cast<StringDictionaryBuilder*>(this)->Append(
                    static_cast<const StringArray&>(*d.dictionary()).GetView(d.GetValueIndex(i))));
                break;
            }
            default:
                return Status::NotImplemented("AppendArraySlice of ", a.type()->ToString());
        }
    }
    return Status::OK();
}
namespace {
Result<std::shared_ptr<Array>> OneRow(const Scalar& s, MemoryPool* pool) {
    if (auto* b = dynamic_cast<const BoxedScalar*>(&s)) return b->value;
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, s.type, &b));
    if (!s.is_valid) {
        ARROW_RETURN_NOT_OK(b->AppendNull());
        return b->Finish();
    }
    switch (s.type->id()) {
#define MINI_CASE(ID, N)                                                                      \
    case Type::ID:                                                                            \
        ARROW_RETURN_NOT_OK(static_cast<N##Builder&>(*b).Append(                              \
            static_cast<const N##Scalar&>(s).value));                                         \
        break;
        MINI_CASE(BOOL, Boolean)
        MINI_CASE(INT8, Int8)
        MINI_CASE(INT16, Int16)
        MINI_CASE(INT32, Int32)
        MINI_CASE(INT64, Int64)
        MINI_CASE(UINT8, UInt8)
        MINI_CASE(UINT16, UInt16)
        MINI_CASE(UINT32, UInt32)
        MINI_CASE(UINT64, UInt64)
        MINI_CASE(FLOAT, Float)
        MINI_CASE(DOUBLE, Double)
        MINI_CASE(DATE32, Date32)
        MINI_CASE(TIMESTAMP, Timestamp)
        MINI_CASE(DECIMAL128, Decimal128)
#undef MINI_CASE
        case Type::STRING:
        case Type::BINARY:
            ARROW_RETURN_NOT_OK(static_cast<BinaryBuilder&>(*b).Append(
                static_cast<const BaseBinaryScalar&>(s).view()));
            break;
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY:
            ARROW_RETURN_NOT_OK(static_cast<LargeBinaryBuilder&>(*b).Append(
                static_cast<const BaseBinaryScalar&>(s).view()));
            break;
        default:
            return Status::NotImplemented("scalar of ", s.type->ToString());
    }
    return b->Finish();
}
}  // namespace
Result<std::shared_ptr<Scalar>> Array::GetScalar(int64_t i) const {
    if (i < 0 || i >= length()) return Status::IndexError("tried to refer to element ", i, " but array is only ", length(), " long");
    bool ok = IsValid(i);
    std::shared_ptr<Scalar> r;
    switch (type_id()) {
        case Type::NA:
            return std::shared_ptr<Scalar>(std::make_shared<NullScalar>());
#define MINI_CASE(ID, N)                                                                   \
    case Type::ID:                                                                         \
        r = std::make_shared<N##Scalar>(static_cast<const N##Array&>(*this).Value(i), type()); \
        break;
            MINI_CASE(BOOL, Boolean)
            MINI_CASE(INT8, Int8)
            MINI_CASE(INT16, Int16)
            MINI_CASE(INT32, Int32)
            MINI_CASE(INT64, Int64)
            MINI_CASE(UINT8, UInt8)
            MINI_CASE(UINT16, UInt16)
            MINI_CASE(UINT32, UInt32)
            MINI_CASE(UINT64, UInt64)
            MINI_CASE(FLOAT, Float)
            MINI_CASE(DOUBLE, Double)
            MINI_CASE(DATE32, Date32)
            MINI_CASE(TIMESTAMP, Timestamp)
#undef MINI_CASE
#define MINI_CASE(ID, N)                                                                          \
    case Type::ID:                                                                                \
        r = std::make_shared<N##Scalar>(                                                          \
            Buffer::FromString(static_cast<const N##Array&>(*this).GetString(i)), type());        \
        break;
            MINI_CASE(STRING, String)
            MINI_CASE(BINARY, Binary)
            MINI_CASE(LARGE_STRING, LargeString)
            MINI_CASE(LARGE_BINARY, LargeBinary)
#undef MINI_CASE
        case Type::DECIMAL128:
            r = std::make_shared<Decimal128Scalar>(
                Decimal128(static_cast<const Decimal128Array&>(*this).GetValue(i)), type());
            break;
        default:
            return std::shared_ptr<Scalar>(std::make_shared<BoxedScalar>(Slice(i, 1)));
    }
    r->is_valid = ok;
    return r;
}
std::string Scalar::ToString() const {
    if (!is_valid) return "null";
    auto a = OneRow(*this, default_memory_pool());
    std::string s = a.ok() ? ElementText(**a, 0) : "?";
    if (s.size() >= 2 && s[0] == '"') s = s.substr(1, s.size() - 2);
    return s;
}
bool Scalar::Equals(const Scalar& o) const {
    if (!type->Equals(o.type) || is_valid != o.is_valid) return false;
    if (!is_valid) return true;
    auto a = OneRow(*this, default_memory_pool()), b = OneRow(o, default_memory_pool());
    return a.ok() && b.ok() && (*a)->Equals(*b);
}
Status ArrayBuilder::AppendScalar(const Scalar& s) {
    ARROW_ASSIGN_OR_RAISE(auto a, OneRow(s, default_memory_pool()));
    return AppendArraySlice(*a, 0, 1);
}
MapBuilder::MapBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& k,
                       const std::shared_ptr<ArrayBuilder>& v, const std::shared_ptr<DataType>& t)
    : ArrayBuilder(pool), t_(t), k_(k), v_(v) {
    auto entries = std::make_shared<StructBuilder>(static_cast<const MapType&>(*t).value_type(), pool,
                                                   std::vector<std::shared_ptr<ArrayBuilder>>{k, v});
    list_ = std::make_shared<ListBuilder>(pool, entries, list(static_cast<const MapType&>(*t).value_field()));
    children_ = {entries};
}
MapBuilder::MapBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& entries,
                       const std::shared_ptr<DataType>& t)
    : ArrayBuilder(pool), t_(t), k_(entries->child_builder(0)), v_(entries->child_builder(1)) {
    list_ = std::make_shared<ListBuilder>(pool, entries, list(static_cast<const MapType&>(*t).value_field()));
    children_ = {entries};
}
Status MapBuilder::Sync() {
    // Entries are appended through the key and item builders; the struct level follows here.
    auto* e = static_cast<StructBuilder*>(list_->value_builder());
    while (e->length() < k_->length()) ARROW_RETURN_NOT_OK(e->Append());
    if (k_->length() != v_->length()) {
        return Status::Invalid("keys and items builders don't have the same size in MapBuilder");
    }
    return Status::OK();
}
Status MapBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    ARROW_RETURN_NOT_OK(Sync());
    ARROW_RETURN_NOT_OK(list_->FinishInternal(out));
    (*out)->type = t_;
    return Status::OK();
}
Status StringDictionaryBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    nulls_.Reset();
    std::shared_ptr<ArrayData> d;
    ARROW_RETURN_NOT_OK(idx_.FinishInternal(out));
    ARROW_RETURN_NOT_OK(dict_.FinishInternal(&d));
    (*out)->type = type();
    (*out)->dictionary = d;
    seen_.clear();
    return Status::OK();
}
Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& t,
                   std::unique_ptr<ArrayBuilder>* out) {
    switch (t->id()) {
#define MINI_CASE(ID, N)                                  \
    case Type::ID:                                        \
        *out = std::make_unique<N##Builder>(t, pool);     \
        return Status::OK();
        MINI_CASE(NA, Null)
        MINI_CASE(BOOL, Boolean)
        MINI_CASE(INT8, Int8)
        MINI_CASE(INT16, Int16)
        MINI_CASE(INT32, Int32)
        MINI_CASE(INT64, Int64)
        MINI_CASE(UINT8, UInt8)
        MINI_CASE(UINT16, UInt16)
        MINI_CASE(UINT32, UInt32)
        MINI_CASE(UINT64, UInt64)
        MINI_CASE(FLOAT, Float)
        MINI_CASE(DOUBLE, Double)
        MINI_CASE(DATE32, Date32)
        MINI_CASE(TIMESTAMP, Timestamp)
        MINI_CASE(STRING, String)
        MINI_CASE(BINARY, Binary)
        MINI_CASE(LARGE_STRING, LargeString)
        MINI_CASE(LARGE_BINARY, LargeBinary)
        MINI_CASE(FIXED_SIZE_BINARY, FixedSizeBinary)
        MINI_CASE(DECIMAL128, Decimal128)
#undef MINI_CASE
        case Type::LIST: {
            std::unique_ptr<ArrayBuilder> c;
            ARROW_RETURN_NOT_OK(MakeBuilder(pool, t->field(0)->type(), &c));
            *out = std::make_unique<ListBuilder>(pool, std::shared_ptr<ArrayBuilder>(std::move(c)), t);
            return Status::OK();
        }
        case Type::MAP: {
            std::unique_ptr<ArrayBuilder> k, v;
            auto& m = static_cast<const MapType&>(*t);
            ARROW_RETURN_NOT_OK(MakeBuilder(pool, m.key_type(), &k));
            ARROW_RETURN_NOT_OK(MakeBuilder(pool, m.item_type(), &v));
            *out = std::make_unique<MapBuilder>(pool, std::shared_ptr<ArrayBuilder>(std::move(k)),
                                                std::shared_ptr<ArrayBuilder>(std::move(v)), t);
            return Status::OK();
        }
        case Type::STRUCT: {
            std::vector<std::shared_ptr<ArrayBuilder>> c;
            for (auto& f : t->fields()) {
                std::unique_ptr<ArrayBuilder> b;
                ARROW_RETURN_NOT_OK(MakeBuilder(pool, f->type(), &b));
                c.push_back(std::move(b));
            }
            *out = std::make_unique<StructBuilder>(t, pool, std::move(c));
            return Status::OK();
        }
        case Type::DICTIONARY:
            *out = std::make_unique<StringDictionaryBuilder>(pool);
            return Status::OK();
        default:
            return Status::NotImplemented("MakeBuilder: cannot construct builder for type ", t->ToString());
    }
}
Result<std::shared_ptr<Array>> MakeEmptyArray(std::shared_ptr<DataType> t, MemoryPool* pool) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, t, &b));
    return b->Finish();
}
Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& t, int64_t n,
                                               MemoryPool* pool) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, t, &b));
    ARROW_RETURN_NOT_OK(b->AppendNulls(n));
    return b->Finish();
}
Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& s, int64_t n, MemoryPool* pool) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, s.type, &b));
    ARROW_ASSIGN_OR_RAISE(auto one, OneRow(s, pool));
    for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(b->AppendArraySlice(*one, 0, 1));
    return b->Finish();
}
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& a, MemoryPool* pool) {
    if (a.empty()) return Status::Invalid("Must pass at least one array");
    for (auto& x : a) {
        if (!x->type()->Equals(*a[0]->type())) {
            return Status::Invalid("arrays to be concatenated must be identically typed, but ",
                                   a[0]->type()->ToString(), " and ", x->type()->ToString(),
                                   " were encountered.");
        }
    }
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, a[0]->type(), &b));
    for (auto& x : a) ARROW_RETURN_NOT_OK(b->AppendArraySlice(*x, 0, x->length()));
    return b->Finish();
}

// ---------------------------------------------------------------- compute
namespace compute {
namespace {
bool IsNum(Type::type t) {
    return is_integer(t) || is_floating(t);
}
bool IsStr(Type::type t) {
    return t == Type::STRING || t == Type::LARGE_STRING;
}
bool IsBin(Type::type t) {
    return t == Type::BINARY || t == Type::LARGE_BINARY;
}
bool ValidUtf8(std::string_view s) {
    for (size_t i = 0; i < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        int n = c < 0x80 ? 1 : c >= 0xC2 && c <= 0xDF ? 2 : (c & 0xF0) == 0xE0 ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
        if (n == 0 || i + static_cast<size_t>(n) > s.size()) return false;
        for (int k = 1; k < n; k++) {
            if ((static_cast<unsigned char>(s[i + static_cast<size_t>(k)]) & 0xC0) != 0x80) return false;
        }
        unsigned char d = n > 1 ? static_cast<unsigned char>(s[i + 1]) : 0;
        if ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) ||
            (c == 0xF4 && d > 0x8F)) {
            return false;
        }
        i += static_cast<size_t>(n);
    }
    return true;
}
// One value on its way through a cast: an exact integer, a real, or text.
struct Value {
    enum Kind { INT, REAL, TEXT, DEC } kind = INT;
    __int128 i = 0;
    double r = 0;
    bool from_float = false;
    std::string_view s;
    int32_t scale = 0;
};
Value Fetch(const Array& a, int64_t i) {
    Value v;
    switch (a.type_id()) {
        case Type::BOOL:
            v.i = static_cast<const BooleanArray&>(a).Value(i);
            break;
#define MINI_CASE(ID, N)                                \
    case Type::ID:                                      \
        v.i = static_cast<const N##Array&>(a).Value(i); \
        break;
            MINI_CASE(INT8, Int8)
            MINI_CASE(INT16, Int16)
            MINI_CASE(INT32, Int32)
            MINI_CASE(INT64, Int64)
            MINI_CASE(UINT8, UInt8)
            MINI_CASE(UINT16, UInt16)
            MINI_CASE(UINT32, UInt32)
            MINI_CASE(UINT64, UInt64)
            MINI_CASE(DATE32, Date32)
            MINI_CASE(TIMESTAMP, Timestamp)
#undef MINI_CASE
        case Type::FLOAT:
            v.kind = Value::REAL;
            v.from_float = true;
            v.r = static_cast<const FloatArray&>(a).Value(i);
            break;
        case Type::DOUBLE:
            v.kind = Value::REAL;
            v.r = static_cast<const DoubleArray&>(a).Value(i);
            break;
        case Type::STRING:
        case Type::BINARY:
            v.kind = Value::TEXT;
            v.s = static_cast<const BaseBinaryArray<BinaryType>&>(a).GetView(i);
            break;
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY:
            v.kind = Value::TEXT;
            v.s = static_cast<const BaseBinaryArray<LargeBinaryType>&>(a).GetView(i);
            break;
        case Type::DECIMAL128:
            v.kind = Value::DEC;
            v.i = Decimal128(static_cast<const Decimal128Array&>(a).GetValue(i)).raw();
            v.scale = static_cast<const Decimal128Type&>(*a.type()).scale();
            break;
        default:
            break;
    }
    return v;
}
Status ParseError(std::string_view s, const DataType& t) {
    return Status::Invalid("Failed to parse string: '", s, "' as a scalar of type ", t.ToString());
}
bool ParseFixed(std::string_view s, size_t at, int n, int* out) {
    if (at + static_cast<size_t>(n) > s.size()) return false;
    int r = 0;
    for (int i = 0; i < n; i++) {
        char c = s[at + static_cast<size_t>(i)];
        if (c < '0' || c > '9') return false;
        r = r * 10 + (c - '0');
    }
    *out = r;
    return true;
}
bool ParseDate(std::string_view s, int64_t* day) {
    int y, m, d;
    if (s.size() != 10 || s[4] != '-' || s[7] != '-') return false;
    if (!ParseFixed(s, 0, 4, &y) || !ParseFixed(s, 5, 2, &m) || !ParseFixed(s, 8, 2, &d)) return false;
    static const int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (m < 1 || m > 12 || d < 1) return false;
    int lim = dim[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)));
    if (d > lim) return false;
    *day = DaysFromCivil(y, m, d);
    return true;
}
// ISO 8601 as Arrow reads it: date, optional time to seconds, optional fraction, optional zone.
bool ParseTimestamp(std::string_view s, TimeUnit::type u, int64_t* out, bool* zoned) {
    int64_t day, sec = 0, sub = 0;
    *zoned = false;
    if (s.size() < 10 || !ParseDate(s.substr(0, 10), &day)) return false;
    int64_t k = UnitsPerSecond(u), shift = 0;
    if (s.size() > 10) {
        if (s[10] != ' ' && s[10] != 'T') return false;
        std::string_view t = s.substr(11);
        size_t z = t.find_first_of("Z+-");
        if (z != std::string_view::npos) {
            std::string_view zone = t.substr(z);
            t = t.substr(0, z);
            *zoned = true;
            if (zone != "Z") {
                int h, m = 0;
                if (!ParseFixed(zone, 1, 2, &h)) return false;
                if (zone.size() == 5) {
                    if (!ParseFixed(zone, 3, 2, &m)) return false;
                } else if (zone.size() == 6) {
                    if (zone[3] != ':' || !ParseFixed(zone, 4, 2, &m)) return false;
                } else if (zone.size() != 3) {
                    return false;
                }
                if (h > 23 || m > 59) return false;
                shift = (h * 60 + m) * 60 * (zone[0] == '+' ? -1 : 1);
            }
        }
        size_t dot = t.find('.');
        if (dot != std::string_view::npos) {
            std::string_view f = t.substr(dot + 1);
            t = t.substr(0, dot);
            int digits = static_cast<int>(u) * 3;
            if (f.empty() || static_cast<int>(f.size()) > digits || t.size() != 8) return false;
            for (int i = 0; i < digits; i++) {
                char c = i < static_cast<int>(f.size()) ? f[static_cast<size_t>(i)] : '0';
                if (c < '0' || c > '9') return false;
                sub = sub * 10 + (c - '0');
            }
        }
        int h = 0, m = 0, ss = 0;
        if (t.size() == 2) {
            if (!ParseFixed(t, 0, 2, &h)) return false;
        } else if (t.size() == 5) {
            if (t[2] != ':' || !ParseFixed(t, 0, 2, &h) || !ParseFixed(t, 3, 2, &m)) return false;
        } else if (t.size() == 8) {
            if (t[2] != ':' || t[5] != ':' || !ParseFixed(t, 0, 2, &h) || !ParseFixed(t, 3, 2, &m) ||
                !ParseFixed(t, 6, 2, &ss)) {
                return false;
            }
        } else if (t.size() == 4) {
            if (!ParseFixed(t, 0, 2, &h) || !ParseFixed(t, 2, 2, &m)) return false;
        } else if (t.size() == 6) {
            if (!ParseFixed(t, 0, 2, &h) || !ParseFixed(t, 2, 2, &m) || !ParseFixed(t, 4, 2, &ss)) return false;
        } else {
            return false;
        }
        if (h > 23 || m > 59 || ss > 59) return false;
        sec = h * 3600 + m * 60 + ss;
    }
    int64_t total = day * 86400 + sec + shift;
    *out = static_cast<int64_t>(static_cast<uint64_t>(total) * static_cast<uint64_t>(k) + static_cast<uint64_t>(sub));
    return true;
}
template <typename B, typename C>
Status PutInt(B& b, const Value& v, const DataType& from, const DataType& to, const CastOptions& o) {
    C out;
    if (v.kind == Value::REAL) {
        double t = std::trunc(v.r);
        bool in = v.r >= static_cast<double>(std::numeric_limits<C>::min()) - 0.0 &&
                  v.r < std::ldexp(1.0, std::numeric_limits<C>::digits);
        if (!o.allow_float_truncate) {
            if (!in || t != v.r) {
                return Status::Invalid("Float value ", FormatReal(v.r), " was truncated converting to ", to.ToString());
            }
        }
        if (in) {
            out = static_cast<C>(v.r);
        } else {
            // What the x86-64 conversion instructions give: the "integer indefinite" value of the
            // register the conversion goes through, cut down to the target's width.
            if constexpr (sizeof(C) == 8) {
                out = static_cast<C>(std::numeric_limits<int64_t>::min());
            } else {
                bool wide = v.r >= -2147483648.0 && v.r < 2147483648.0;
                out = static_cast<C>(wide ? static_cast<int32_t>(v.r) : std::numeric_limits<int32_t>::min());
            }
        }
    } else {
        __int128 i = v.i;
        if (v.kind == Value::DEC) {
            if (v.scale > 0) {
                __int128 m = BasicDecimal128::GetScaleMultiplier(v.scale).raw();
                if (!o.allow_decimal_truncate && i % m != 0) {
                    return Status::Invalid("Rescaling Decimal128 value would cause data loss");
                }
                i /= m;
            } else if (v.scale < 0) {
                i *= BasicDecimal128::GetScaleMultiplier(-v.scale).raw();
            }
            if (!o.allow_int_overflow && (i < std::numeric_limits<C>::min() || i > std::numeric_limits<C>::max())) {
                return Status::Invalid("Integer value out of bounds");
            }
        } else if (!o.allow_int_overflow && (i < std::numeric_limits<C>::min() || i > std::numeric_limits<C>::max())) {
            return Status::Invalid("Integer value ", Decimal128(BasicDecimal128::FromRaw(i)).ToIntegerString(),
                                   " not in range: ", std::to_string(std::numeric_limits<C>::min()), " to ",
                                   std::to_string(std::numeric_limits<C>::max()));
        }
        out = static_cast<C>(i);
    }
    (void)from;
    return b.Append(out);
}
template <typename C>
bool ParseInteger(std::string_view s, C* out) {
    if (s.empty()) return false;
    auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
    return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
bool Lower(std::string_view s, const char* w) {
    size_t n = strlen(w);
    if (s.size() != n) return false;
    for (size_t i = 0; i < n; i++) {
        if (tolower(static_cast<unsigned char>(s[i])) != w[i]) return false;
    }
    return true;
}
Result<int64_t> ZoneShift(const std::string& tz, int64_t utc_seconds) {
    (void)utc_seconds;
    static const std::map<std::string, int64_t> fixed = {
        {"", 0},        {"UTC", 0}, {"Etc/UTC", 0},           {"GMT", 0},
        {"Asia/Tokyo", 9 * 3600},   {"Asia/Shanghai", 8 * 3600}};
    auto it = fixed.find(tz);
    if (it != fixed.end()) return it->second;
    int h, m;
    if (tz.size() == 6 && (tz[0] == '+' || tz[0] == '-') && ParseFixed(tz, 1, 2, &h) && ParseFixed(tz, 4, 2, &m)) {
        return (h * 60 + m) * 60 * (tz[0] == '-' ? -1 : 1);
    }
    return Status::Invalid("Cannot locate timezone '", tz, "': not found in timezone database");
}
}  // namespace

bool CanCast(const DataType& from, const DataType& to) {
    Type::type f = from.id(), t = to.id();
    if (f == t) return true;
    if (f == Type::NA) return true;
    if (f == Type::DICTIONARY) return true;
    auto basic = [](Type::type x) { return IsNum(x) || x == Type::BOOL; };
    if (basic(f) && (basic(t) || IsStr(t) || (t == Type::DECIMAL128 && f != Type::BOOL))) return true;
    if (IsStr(f) && (basic(t) || IsStr(t) || IsBin(t) || t == Type::DATE32 || t == Type::TIMESTAMP || t == Type::DECIMAL128)) return true;
    if (IsBin(f) && (IsStr(t) || IsBin(t))) return true;
    if (f == Type::DATE32 && (t == Type::TIMESTAMP || IsStr(t) || t == Type::INT32)) return true;
    if (f == Type::TIMESTAMP && (t == Type::DATE32 || IsStr(t) || t == Type::INT64)) return true;
    if (f == Type::INT64 && t == Type::TIMESTAMP) return true;
    if (f == Type::INT32 && t == Type::DATE32) return true;
    if (f == Type::DECIMAL128 && (IsNum(t) || IsStr(t))) return true;
    return false;
}
Result<std::shared_ptr<Array>> Cast(const Array& a, const TypeHolder& holder, const CastOptions& o,
                                    ExecContext* ctx) {
    auto to = holder.GetSharedPtr();
    const DataType& from = *a.type();
    if (from.Equals(*to)) return MakeArray(a.data());
    if (!CanCast(from, *to)) {
        return Status::NotImplemented("Unsupported cast from ", from.ToString(), " to ", to->ToString(),
                                      " using function cast_", to->name());
    }
    MemoryPool* pool = ctx ? ctx->memory_pool() : default_memory_pool();
    if (from.id() == Type::DICTIONARY) {
        auto& d = static_cast<const DictionaryArray&>(a);
        std::unique_ptr<ArrayBuilder> vb;
        ARROW_RETURN_NOT_OK(MakeBuilder(pool, d.dictionary()->type(), &vb));
        for (int64_t i = 0; i < a.length(); i++) {
            ARROW_RETURN_NOT_OK(a.IsNull(i) ? vb->AppendNull()
                                            : vb->AppendArraySlice(*d.dictionary(), d.GetValueIndex(i), 1));
        }
        ARROW_ASSIGN_OR_RAISE(auto dense, vb->Finish());
        return Cast(*dense, holder, o, ctx);
    }
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, to, &b));
    for (int64_t i = 0; i < a.length(); i++) {
        if (a.IsNull(i)) {
            ARROW_RETURN_NOT_OK(b->AppendNull());
            continue;
        }
        Value v = Fetch(a, i);
        switch (to->id()) {
            case Type::BOOL: {
                bool r;
                if (v.kind == Value::TEXT) {
                    if (v.s == "1" || Lower(v.s, "true")) {
                        r = true;
                    } else if (v.s == "0" || Lower(v.s, "false")) {
                        r = false;
                    } else {
                        return ParseError(v.s, *to);
                    }
                } else {
                    r = v.kind == Value::REAL ? v.r != 0 : v.i != 0;
                }
                ARROW_RETURN_NOT_OK(static_cast<BooleanBuilder&>(*b).Append(r));
                break;
            }
#define MINI_CASE(ID, N)                                                                         \
    case Type::ID: {                                                                             \
        auto& nb = static_cast<N##Builder&>(*b);                                                 \
        using C = N##Builder::value_type;                                                        \
        if (v.kind == Value::TEXT) {                                                             \
            C out;                                                                               \
            if (!ParseInteger(v.s, &out)) return ParseError(v.s, *to);                           \
            ARROW_RETURN_NOT_OK(nb.Append(out));                                                 \
        } else {                                                                                 \
            Status st = PutInt<N##Builder, C>(nb, v, from, *to, o);                              \
            if (!st.ok()) return st;                                                             \
        }                                                                                        \
        break;                                                                                   \
    }
                MINI_CASE(INT8, Int8)
                MINI_CASE(INT16, Int16)
                MINI_CASE(INT32, Int32)
                MINI_CASE(INT64, Int64)
                MINI_CASE(UINT8, UInt8)
                MINI_CASE(UINT16, UInt16)
                MINI_CASE(UINT32, UInt32)
                MINI_CASE(UINT64, UInt64)
#undef MINI_CASE
#define MINI_CASE(ID, N, LIMIT, CONV)                                                            \
    case Type::ID: {                                                                             \
        auto& nb = static_cast<N##Builder&>(*b);                                                 \
        using C = N##Builder::value_type;                                                        \
        C out;                                                                                   \
        if (v.kind == Value::TEXT) {                                                             \
            if (!arrow::internal::StringToFloat(v.s.data(), v.s.size(), '.', &out)) {            \
                return ParseError(v.s, *to);                                                     \
            }                                                                                    \
        } else if (v.kind == Value::REAL) {                                                      \
            out = static_cast<C>(v.r);                                                           \
        } else if (v.kind == Value::DEC) {                                                       \
            out = Decimal128(BasicDecimal128::FromRaw(v.i)).CONV(v.scale);                       \
        } else {                                                                                 \
            if (!o.allow_float_truncate && (v.i > LIMIT || v.i < -LIMIT)) {                      \
                return Status::Invalid("Integer value ",                                         \
                                       Decimal128(BasicDecimal128::FromRaw(v.i)).ToIntegerString(), \
                                       " not in range: -", std::to_string(LIMIT), " to ",        \
                                       std::to_string(LIMIT));                                   \
            }                                                                                    \
            out = static_cast<C>(v.i);                                                           \
        }                                                                                        \
        ARROW_RETURN_NOT_OK(nb.Append(out));                                                     \
        break;                                                                                   \
    }
                MINI_CASE(FLOAT, Float, (INT64_C(1) << 24), ToFloat)
                MINI_CASE(DOUBLE, Double, (INT64_C(1) << 53), ToDouble)
#undef MINI_CASE
            case Type::STRING:
            case Type::BINARY:
            case Type::LARGE_STRING:
            case Type::LARGE_BINARY: {
                std::string text;
                if (v.kind == Value::TEXT) {
                    if (IsBin(from.id()) && IsStr(to->id()) && !o.allow_invalid_utf8 && !ValidUtf8(v.s)) {
                        return Status::Invalid("Invalid UTF8 payload");
                    }
                    text = std::string(v.s);
                } else {
                    text = ElementText(a, i);
                    if (from.id() == Type::TIMESTAMP && !static_cast<const TimestampType&>(from).timezone().empty()) {
                        auto& tt = static_cast<const TimestampType&>(from);
                        ARROW_ASSIGN_OR_RAISE(int64_t sh, ZoneShift(tt.timezone(), 0));
                        text = FormatTimestamp(static_cast<int64_t>(v.i) + sh * UnitsPerSecond(tt.unit()), tt.unit());
                        if (sh == 0) {
                            text += "Z";
                        } else {
                            char z[16];
                            snprintf(z, sizeof z, "%c%02d%02d", sh < 0 ? '-' : '+', static_cast<int>(std::abs(sh) / 3600),
                                     static_cast<int>(std::abs(sh) / 60 % 60));
                            text += z;
                        }
                    }
                }
                if (to->id() == Type::STRING || to->id() == Type::BINARY) {
                    ARROW_RETURN_NOT_OK(static_cast<BinaryBuilder&>(*b).Append(text));
                } else {
                    ARROW_RETURN_NOT_OK(static_cast<LargeBinaryBuilder&>(*b).Append(text));
                }
                break;
            }
            case Type::DATE32: {
                int64_t day = 0;
                if (v.kind == Value::TEXT) {
                    if (!ParseDate(v.s, &day)) return ParseError(v.s, *to);
                } else if (from.id() == Type::TIMESTAMP) {
                    auto& tt = static_cast<const TimestampType&>(from);
                    ARROW_ASSIGN_OR_RAISE(int64_t sh, ZoneShift(tt.timezone(), 0));
                    day = FloorDiv(FloorDiv(static_cast<int64_t>(v.i), UnitsPerSecond(tt.unit())) + sh, 86400);
                } else {
                    day = static_cast<int64_t>(v.i);
                }
                ARROW_RETURN_NOT_OK(static_cast<Date32Builder&>(*b).Append(static_cast<int32_t>(day)));
                break;
            }
            case Type::TIMESTAMP: {
                auto& tt = static_cast<const TimestampType&>(*to);
                int64_t out = 0;
                if (v.kind == Value::TEXT) {
                    bool zoned;
                    if (!ParseTimestamp(v.s, tt.unit(), &out, &zoned)) return ParseError(v.s, *to);
                    if (zoned && tt.timezone().empty()) {
                        return Status::Invalid("Failed to parse string: '", v.s, "' as a scalar of type ", to->ToString(),
                                               ": expected no zone offset.");
                    }
                    if (!zoned && !tt.timezone().empty()) {
                        return Status::Invalid("Failed to parse string: '", v.s, "' as a scalar of type ", to->ToString(),
                                               ": expected a zone offset.");
                    }
                } else if (from.id() == Type::TIMESTAMP) {
                    auto& ft = static_cast<const TimestampType&>(from);
                    int64_t fk = UnitsPerSecond(ft.unit()), tk = UnitsPerSecond(tt.unit());
                    int64_t x = static_cast<int64_t>(v.i);
                    if (tk >= fk) {
                        if (__builtin_mul_overflow(x, tk / fk, &out) && !o.allow_time_overflow) {
                            return Status::Invalid("Casting from ", from.ToString(), " to ", to->ToString(),
                                                   " would result in out of bounds timestamp: ", x);
                        }
                    } else {
                        out = x / (fk / tk);
                        if (!o.allow_time_truncate && out * (fk / tk) != x) {
                            return Status::Invalid("Casting from ", from.ToString(), " to ", to->ToString(), " would lose data: ", x);
                        }
                    }
                } else if (from.id() == Type::DATE32) {
                    if (__builtin_mul_overflow(static_cast<int64_t>(v.i) * 86400, UnitsPerSecond(tt.unit()), &out) &&
                        !o.allow_time_overflow) {
                        return Status::Invalid("Casting from ", from.ToString(), " to ", to->ToString(),
                                               " would result in out of bounds timestamp: ", static_cast<int64_t>(v.i));
                    }
                } else {
                    out = static_cast<int64_t>(v.i);
                }
                ARROW_RETURN_NOT_OK(static_cast<TimestampBuilder&>(*b).Append(out));
                break;
            }
            case Type::DECIMAL128: {
                auto& dt = static_cast<const Decimal128Type&>(*to);
                Decimal128 d;
                if (v.kind == Value::REAL) {
                    ARROW_ASSIGN_OR_RAISE(d, Decimal128::FromReal(v.r, dt.precision(), dt.scale()));
                } else {
                    int32_t fs = v.scale;
                    if (v.kind == Value::TEXT) {
                        ARROW_RETURN_NOT_OK(Decimal128::FromString(v.s, &d, nullptr, &fs));
                    } else {
                        d = BasicDecimal128::FromRaw(v.i);
                    }
                    if (o.allow_decimal_truncate && dt.scale() < fs) {
                        d = d.ReduceScaleBy(fs - dt.scale(), false);
                    } else {
                        ARROW_ASSIGN_OR_RAISE(d, d.Rescale(fs, dt.scale()));
                    }
                    if (!o.allow_decimal_truncate && !d.FitsInPrecision(dt.precision())) {
                        return Status::Invalid("Decimal value does not fit in precision ", dt.precision());
                    }
                }
                ARROW_RETURN_NOT_OK(static_cast<Decimal128Builder&>(*b).Append(d));
                break;
            }
            default:
                return Status::NotImplemented("cast to ", to->ToString());
        }
    }
    return b->Finish();
}
Result<Datum> Cast(const Datum& d, const TypeHolder& t, const CastOptions& o, ExecContext* ctx) {
    if (d.is_array()) {
        ARROW_ASSIGN_OR_RAISE(auto r, Cast(*d.make_array(), t, o, ctx));
        return Datum(r);
    }
    ARROW_ASSIGN_OR_RAISE(auto one, OneRow(*d.scalar(), default_memory_pool()));
    ARROW_ASSIGN_OR_RAISE(auto r, Cast(*one, t, o, ctx));
    ARROW_ASSIGN_OR_RAISE(auto s, r->GetScalar(0));
    return Datum(s);
}
namespace {
int CompareElement(const Array& a, int64_t i, int64_t j) {
    Value x = Fetch(a, i), y = Fetch(a, j);
    if (x.kind == Value::TEXT) return x.s.compare(y.s);
    if (x.kind == Value::REAL) return x.r < y.r ? -1 : x.r > y.r ? 1 : 0;
    return x.i < y.i ? -1 : x.i > y.i ? 1 : 0;
}
}  // namespace
Result<std::shared_ptr<Array>> SortIndices(const Datum& d, const SortOptions& o, ExecContext* ctx) {
    auto a = d.make_array();
    std::vector<uint64_t> idx(static_cast<size_t>(a->length()));
    std::iota(idx.begin(), idx.end(), 0);
    std::vector<std::pair<std::shared_ptr<Array>, bool>> keys;
    if (a->type_id() == Type::STRUCT) {
        for (auto& k : o.sort_keys) {
            auto c = static_cast<const StructArray&>(*a).GetFieldByName(k.target);
            if (!c) return Status::Invalid("No match for FieldRef.Name(", k.target, ")");
            keys.emplace_back(c, k.order == SortOrder::Ascending);
        }
    } else {
        keys.emplace_back(a, o.sort_keys.empty() || o.sort_keys[0].order == SortOrder::Ascending);
    }
    std::stable_sort(idx.begin(), idx.end(), [&](uint64_t x, uint64_t y) {
        for (auto& [c, asc] : keys) {
            bool nx = c->IsNull(static_cast<int64_t>(x)), ny = c->IsNull(static_cast<int64_t>(y));
            if (nx || ny) {
                if (nx && ny) continue;
                return o.null_placement == NullPlacement::AtStart ? nx : ny;
            }
            int r = CompareElement(*c, static_cast<int64_t>(x), static_cast<int64_t>(y));
            if (r != 0) return asc ? r < 0 : r > 0;
        }
        return false;
    });
    UInt64Builder b(ctx ? ctx->memory_pool() : default_memory_pool());
    ARROW_RETURN_NOT_OK(b.AppendValues(idx));
    return b.Finish();
}
Result<Datum> Take(const Datum& v, const Datum& idx) {
    auto a = v.make_array();
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(default_memory_pool(), a->type(), &b));
    auto& ix = static_cast<const UInt64Array&>(*idx.make_array());
    for (int64_t i = 0; i < ix.length(); i++) {
        ARROW_RETURN_NOT_OK(b->AppendArraySlice(*a, static_cast<int64_t>(ix.Value(i)), 1));
    }
    ARROW_ASSIGN_OR_RAISE(auto r, b->Finish());
    return Datum(r);
}
namespace {
Result<Datum> Shifted(const Datum& v, const std::shared_ptr<DataType>& to, const std::string& tz, int64_t dir, ExecContext* ctx) {
    MemoryPool* pool = ctx ? ctx->memory_pool() : default_memory_pool();
    std::shared_ptr<Array> a = v.make_array();
    if (v.is_scalar()) {
        ARROW_ASSIGN_OR_RAISE(a, OneRow(*v.scalar(), pool));
    }
    auto& ts = static_cast<const TimestampArray&>(*a);
    int64_t k = UnitsPerSecond(static_cast<const TimestampType&>(*a->type()).unit());
    TimestampBuilder b(to, pool);
    for (int64_t i = 0; i < a->length(); i++) {
        if (a->IsNull(i)) {
            ARROW_RETURN_NOT_OK(b.AppendNull());
            continue;
        }
        ARROW_ASSIGN_OR_RAISE(int64_t sh, ZoneShift(tz, 0));
        ARROW_RETURN_NOT_OK(b.Append(static_cast<int64_t>(static_cast<uint64_t>(ts.Value(i)) + static_cast<uint64_t>(dir * sh * k))));
    }
    std::shared_ptr<Array> r;
    ARROW_RETURN_NOT_OK(b.Finish(&r));
    if (v.is_scalar()) {
        ARROW_ASSIGN_OR_RAISE(auto s, r->GetScalar(0));
        return Datum(s);
    }
    return Datum(r);
}
}  // namespace
Result<Datum> AssumeTimezone(const Datum& v, const AssumeTimezoneOptions& o, ExecContext* ctx) {
    auto& t = static_cast<const TimestampType&>(*v.type());
    if (!t.timezone().empty()) return Status::Invalid("Timestamps already have a timezone: '", t.timezone(), "'. Cannot localize to '", o.timezone, "'.");
    return Shifted(v, timestamp(t.unit(), o.timezone), o.timezone, -1, ctx);
}
Result<Datum> LocalTimestamp(const Datum& v, ExecContext* ctx) {
    auto& t = static_cast<const TimestampType&>(*v.type());
    return Shifted(v, timestamp(t.unit()), t.timezone(), 1, ctx);
}
}  // namespace compute

namespace internal {
uint32_t crc32(uint32_t prev, const void* data, size_t len) {
    static const auto* table = [] {
        auto* t = new std::array<uint32_t, 256>;
        for (uint32_t i = 0; i < 256; i++) {
            uint32_t c = i;
            for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
            (*t)[i] = c;
        }
        return t;
    }();
    uint32_t c = ~prev;
    auto* p = static_cast<const uint8_t*>(data);
    for (size_t i = 0; i < len; i++) c = (*table)[(c ^ p[i]) & 0xff] ^ (c >> 8);
    return ~c;
}
}  // namespace internal

// ---------------------------------------------------------------- JSON
namespace ipc::internal::json {
namespace rj = rapidjson;
namespace {
Status AppendJson(ArrayBuilder* b, const DataType& t, const rj::Value& v) {
    if (v.IsNull()) return b->AppendNull();
    auto bad = [&] { return Status::Invalid("Cannot convert JSON value to ", t.ToString()); };
    switch (t.id()) {
        case Type::BOOL:
            if (v.IsInt()) return static_cast<BooleanBuilder*>(b)->Append(v.GetInt() != 0);
            if (!v.IsBool()) return bad();
            return static_cast<BooleanBuilder*>(b)->Append(v.GetBool());
#define MINI_CASE(ID, N)                                                                      \
    case Type::ID: {                                                                          \
        if (!v.IsInt64()) return bad();                                                       \
        int64_t x = v.GetInt64();                                                             \
        using C = N##Builder::value_type;                                                     \
        if (static_cast<int64_t>(static_cast<C>(x)) != x) {                                   \
            return Status::Invalid("Value ", x, " out of bounds for ", t.ToString());         \
        }                                                                                     \
        return static_cast<N##Builder*>(b)->Append(static_cast<C>(x));                        \
    }
            MINI_CASE(INT8, Int8)
            MINI_CASE(INT16, Int16)
            MINI_CASE(INT32, Int32)
            MINI_CASE(INT64, Int64)
            MINI_CASE(UINT8, UInt8)
            MINI_CASE(UINT16, UInt16)
            MINI_CASE(UINT32, UInt32)
            MINI_CASE(DATE32, Date32)
#undef MINI_CASE
        case Type::UINT64:
            if (!v.IsUint64()) return bad();
            return static_cast<UInt64Builder*>(b)->Append(v.GetUint64());
        case Type::FLOAT:
            if (!v.IsNumber()) return bad();
            return static_cast<FloatBuilder*>(b)->Append(static_cast<float>(v.GetDouble()));
        case Type::DOUBLE:
            if (!v.IsNumber()) return bad();
            return static_cast<DoubleBuilder*>(b)->Append(v.GetDouble());
        case Type::STRING:
        case Type::BINARY:
            if (!v.IsString()) return bad();
            return static_cast<BinaryBuilder*>(b)->Append(std::string_view(v.GetString(), v.GetStringLength()));
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY:
            if (!v.IsString()) return bad();
            return static_cast<LargeBinaryBuilder*>(b)->Append(std::string_view(v.GetString(), v.GetStringLength()));
        case Type::DECIMAL128: {
            if (!v.IsString()) return bad();
            Decimal128 d;
            int32_t p, s;
            auto& dt = static_cast<const Decimal128Type&>(t);
            ARROW_RETURN_NOT_OK(Decimal128::FromString(std::string_view(v.GetString(), v.GetStringLength()), &d, &p, &s));
            if (s != dt.scale()) return Status::Invalid("Invalid scale for decimal: expected ", dt.scale(), ", got ", s);
            return static_cast<Decimal128Builder*>(b)->Append(d);
        }
        case Type::TIMESTAMP: {
            if (v.IsInt64()) return static_cast<TimestampBuilder*>(b)->Append(v.GetInt64());
            if (!v.IsString()) return bad();
            int64_t out;
            bool zoned;
            if (!compute::ParseTimestamp(std::string_view(v.GetString(), v.GetStringLength()),
                                         static_cast<const TimestampType&>(t).unit(), &out, &zoned)) {
                return bad();
            }
            return static_cast<TimestampBuilder*>(b)->Append(out);
        }
        case Type::LIST: {
            if (!v.IsArray()) return bad();
            auto* l = static_cast<ListBuilder*>(b);
            ARROW_RETURN_NOT_OK(l->Append());
            for (auto& e : v.GetArray()) ARROW_RETURN_NOT_OK(AppendJson(l->value_builder(), *t.field(0)->type(), e));
            return Status::OK();
        }
        case Type::MAP: {
            if (!v.IsArray()) return bad();
            auto* m = static_cast<MapBuilder*>(b);
            auto& mt = static_cast<const MapType&>(t);
            ARROW_RETURN_NOT_OK(m->Append());
            for (auto& e : v.GetArray()) {
                if (!e.IsArray() || e.Size() != 2) return bad();
                ARROW_RETURN_NOT_OK(AppendJson(m->key_builder(), *mt.key_type(), e[0]));
                ARROW_RETURN_NOT_OK(AppendJson(m->item_builder(), *mt.item_type(), e[1]));
            }
            return Status::OK();
        }
        case Type::STRUCT: {
            auto* s = static_cast<StructBuilder*>(b);
            if (v.IsArray()) {
                if (static_cast<int>(v.Size()) != t.num_fields()) {
                    return Status::Invalid("Expected array of size ", t.num_fields(), ", got array of size ", v.Size());
                }
                for (int i = 0; i < t.num_fields(); i++) {
                    ARROW_RETURN_NOT_OK(AppendJson(s->field_builder(i), *t.field(i)->type(), v[static_cast<rj::SizeType>(i)]));
                }
            } else if (v.IsObject()) {
                for (int i = 0; i < t.num_fields(); i++) {
                    auto it = v.FindMember(t.field(i)->name().c_str());
                    ARROW_RETURN_NOT_OK(it == v.MemberEnd() ? s->field_builder(i)->AppendNull()
                                                            : AppendJson(s->field_builder(i), *t.field(i)->type(), it->value));
                }
            } else {
                return bad();
            }
            return s->Append();
        }
        default:
            return Status::NotImplemented("JSON for ", t.ToString());
    }
}
}  // namespace
Result<std::shared_ptr<Array>> ArrayFromJSON(const std::shared_ptr<DataType>& t, std::string_view json) {
    rj::Document d;
    d.Parse<rj::kParseFullPrecisionFlag | rj::kParseNanAndInfFlag>(json.data(), json.size());
    if (d.HasParseError()) return Status::Invalid("JSON parse error at offset ", d.GetErrorOffset());
    if (!d.IsArray()) return Status::Invalid("Expected array or null, got JSON type ", static_cast<int>(d.GetType()));
    std::unique_ptr<ArrayBuilder> b;
    auto flat = t;
    if (t->id() == Type::DICTIONARY) flat = static_cast<const DictionaryType&>(*t).value_type();
    if (t->id() == Type::DICTIONARY) {
        StringDictionaryBuilder db;
        for (auto& e : d.GetArray()) {
            ARROW_RETURN_NOT_OK(e.IsNull() ? db.AppendNull() : db.Append(std::string_view(e.GetString(), e.GetStringLength())));
        }
        return static_cast<ArrayBuilder&>(db).Finish();
    }
    ARROW_RETURN_NOT_OK(MakeBuilder(default_memory_pool(), flat, &b));
    for (auto& e : d.GetArray()) ARROW_RETURN_NOT_OK(AppendJson(b.get(), *flat, e));
    return b->Finish();
}
Result<std::shared_ptr<Array>> ArrayFromJSON(const std::shared_ptr<DataType>& t, const std::string& j) {
    return ArrayFromJSON(t, std::string_view(j));
}
Result<std::shared_ptr<Array>> ArrayFromJSON(const std::shared_ptr<DataType>& t, const char* j) {
    return ArrayFromJSON(t, std::string_view(j));
}
Status ChunkedArrayFromJSON(const std::shared_ptr<DataType>& t, const std::vector<std::string>& json,
                            std::shared_ptr<ChunkedArray>* out) {
    ArrayVector v;
    for (auto& j : json) {
        ARROW_ASSIGN_OR_RAISE(auto a, ArrayFromJSON(t, j));
        v.push_back(a);
    }
    *out = std::make_shared<ChunkedArray>(v, t);
    return Status::OK();
}
}  // namespace ipc::internal::json

// ---------------------------------------------------------------- C data interface
namespace {
struct SchemaPrivate {
    std::string format, name, metadata;
    std::vector<ArrowSchema> children;
    std::vector<ArrowSchema*> ptrs;
    ArrowSchema dict;
};
void ReleaseSchema(ArrowSchema* s) {
    if (!s->release) return;
    for (int64_t i = 0; i < s->n_children; i++) {
        if (s->children[i]->release) s->children[i]->release(s->children[i]);
    }
    if (s->dictionary && s->dictionary->release) s->dictionary->release(s->dictionary);
    delete static_cast<SchemaPrivate*>(s->private_data);
    s->release = nullptr;
}
Result<std::string> FormatOf(const DataType& t) {
    switch (t.id()) {
        case Type::NA:
            return std::string("n");
        case Type::BOOL:
            return std::string("b");
        case Type::INT8:
            return std::string("c");
        case Type::UINT8:
            return std::string("C");
        case Type::INT16:
            return std::string("s");
        case Type::UINT16:
            return std::string("S");
        case Type::INT32:
            return std::string("i");
        case Type::UINT32:
            return std::string("I");
        case Type::INT64:
            return std::string("l");
        case Type::UINT64:
            return std::string("L");
        case Type::FLOAT:
            return std::string("f");
        case Type::DOUBLE:
            return std::string("g");
        case Type::BINARY:
            return std::string("z");
        case Type::LARGE_BINARY:
            return std::string("Z");
        case Type::STRING:
            return std::string("u");
        case Type::LARGE_STRING:
            return std::string("U");
        case Type::DATE32:
            return std::string("tdD");
        case Type::FIXED_SIZE_BINARY:
            return "w:" + std::to_string(t.bit_width() / 8);
        case Type::DECIMAL128: {
            auto& d = static_cast<const Decimal128Type&>(t);
            return "d:" + std::to_string(d.precision()) + "," + std::to_string(d.scale());
        }
        case Type::TIMESTAMP: {
            auto& d = static_cast<const TimestampType&>(t);
            return std::string("ts") + "smun"[d.unit()] + ":" + d.timezone();
        }
        case Type::LIST:
            return std::string("+l");
        case Type::MAP:
            return std::string("+m");
        case Type::STRUCT:
            return std::string("+s");
        case Type::DICTIONARY:
            return FormatOf(*static_cast<const DictionaryType&>(t).index_type());
        default:
            return Status::NotImplemented("Exporting ", t.ToString(), " type not supported");
    }
}
std::string EncodeMetadata(const KeyValueMetadata& m) {
    std::string s;
    auto put = [&](int32_t v) { s.append(reinterpret_cast<char*>(&v), 4); };
    put(static_cast<int32_t>(m.size()));
    for (int64_t i = 0; i < m.size(); i++) {
        put(static_cast<int32_t>(m.key(i).size()));
        s += m.key(i);
        put(static_cast<int32_t>(m.value(i).size()));
        s += m.value(i);
    }
    return s;
}
std::shared_ptr<KeyValueMetadata> DecodeMetadata(const char* p) {
    if (!p) return nullptr;
    auto get = [&] {
        int32_t v;
        memcpy(&v, p, 4);
        p += 4;
        return v;
    };
    int32_t n = get();
    if (n == 0) return nullptr;
    auto m = std::make_shared<KeyValueMetadata>();
    for (int32_t i = 0; i < n; i++) {
        int32_t a = get();
        std::string k(p, static_cast<size_t>(a));
        p += a;
        a = get();
        m->Append(k, std::string(p, static_cast<size_t>(a)));
        p += a;
    }
    return m;
}
Status FillSchema(const std::string& name, const DataType& t, bool nullable, const KeyValueMetadata* md, ArrowSchema* out) {
    memset(out, 0, sizeof *out);
    ARROW_ASSIGN_OR_RAISE(std::string fmt, FormatOf(t));
    auto p = std::make_unique<SchemaPrivate>();
    p->format = fmt;
    p->name = name;
    if (md && md->size() > 0) p->metadata = EncodeMetadata(*md);
    const FieldVector& kids = t.fields();
    p->children.resize(kids.size());
    for (size_t i = 0; i < kids.size(); i++) {
        auto& f = *kids[i];
        Status st = FillSchema(f.name(), *f.type(), f.nullable(), f.metadata().get(), &p->children[i]);
        if (!st.ok()) {
            for (size_t k = 0; k < i; k++) p->children[k].release(&p->children[k]);
            return st;
        }
        p->ptrs.push_back(&p->children[i]);
    }
    if (t.id() == Type::DICTIONARY) {
        ARROW_RETURN_NOT_OK(FillSchema("", *static_cast<const DictionaryType&>(t).value_type(), true, nullptr, &p->dict));
        out->dictionary = &p->dict;
    }
    out->format = p->format.c_str();
    out->name = p->name.c_str();
    out->metadata = p->metadata.empty() ? nullptr : p->metadata.data();
    out->flags = nullable ? ARROW_FLAG_NULLABLE : 0;
    if (t.id() == Type::MAP && static_cast<const MapType&>(t).keys_sorted()) out->flags |= ARROW_FLAG_MAP_KEYS_SORTED;
    out->n_children = static_cast<int64_t>(kids.size());
    out->children = p->ptrs.data();
    out->release = ReleaseSchema;
    out->private_data = p.release();
    return Status::OK();
}
struct ArrayPrivate {
    std::shared_ptr<ArrayData> data;
    std::vector<const void*> buffers;
    std::vector<ArrowArray> children;
    std::vector<ArrowArray*> ptrs;
    ArrowArray dict;
};
void ReleaseArray(ArrowArray* a) {
    if (!a->release) return;
    for (int64_t i = 0; i < a->n_children; i++) {
        if (a->children[i]->release) a->children[i]->release(a->children[i]);
    }
    if (a->dictionary && a->dictionary->release) a->dictionary->release(a->dictionary);
    delete static_cast<ArrayPrivate*>(a->private_data);
    a->release = nullptr;
}
void FillArray(const std::shared_ptr<ArrayData>& d, ArrowArray* out) {
    memset(out, 0, sizeof *out);
    auto* p = new ArrayPrivate;
    p->data = d;
    if (d->type->id() != Type::NA) {
        for (auto& b : d->buffers) p->buffers.push_back(b ? b->data() : nullptr);
    }
    p->children.resize(d->child_data.size());
    for (size_t i = 0; i < d->child_data.size(); i++) {
        FillArray(d->child_data[i], &p->children[i]);
        p->ptrs.push_back(&p->children[i]);
    }
    if (d->dictionary) {
        FillArray(d->dictionary, &p->dict);
        out->dictionary = &p->dict;
    }
    out->length = d->length;
    out->null_count = d->null_count.load();
    if (d->type->id() != Type::NA && !d->buffers.empty() && !d->buffers[0]) out->null_count = 0;
    out->offset = d->offset;
    out->n_buffers = static_cast<int64_t>(p->buffers.size());
    out->n_children = static_cast<int64_t>(p->children.size());
    out->buffers = p->buffers.data();
    out->children = p->ptrs.data();
    out->release = ReleaseArray;
    out->private_data = p;
}
// Owns an imported C structure; released with the last buffer that refers to it.
struct Imported {
    ArrowArray a;
    ~Imported() {
        if (a.release) a.release(&a);
    }
};
class ImportedBuffer : public Buffer {
 public:
    ImportedBuffer(const void* p, int64_t n, std::shared_ptr<Imported> o)
        : Buffer(static_cast<const uint8_t*>(p), n), owner_(std::move(o)) {}

 private:
    std::shared_ptr<Imported> owner_;
};
Result<std::shared_ptr<ArrayData>> ImportData(const ArrowArray& a, const std::shared_ptr<DataType>& t,
                                              const std::shared_ptr<Imported>& own) {
    auto d = std::make_shared<ArrayData>(t, a.length, a.null_count, a.offset);
    auto buf = [&](int i, int64_t bytes) -> std::shared_ptr<Buffer> {
        if (!a.buffers[i]) return nullptr;
        return std::make_shared<ImportedBuffer>(a.buffers[i], bytes, own);
    };
    int64_t end = a.length + a.offset;
    auto expect = [&](int64_t b, int64_t c) -> Status {
        if (a.n_children != c) {
            return Status::Invalid("Expected ", c, " children for imported type ", t->ToString(), ", ArrowArray struct has ", a.n_children);
        }
        if (a.n_buffers != b) {
            return Status::Invalid("Expected ", b, " buffers for imported type ", t->ToString(),
                                   ", ArrowArray struct has ", a.n_buffers);
        }
        return Status::OK();
    };
    switch (t->id()) {
        case Type::NA:
            d->buffers = {nullptr};
            d->null_count = a.length;
            return d;
        case Type::STRING:
        case Type::BINARY:
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY: {
            ARROW_RETURN_NOT_OK(expect(3, 0));
            bool large = t->id() == Type::LARGE_STRING || t->id() == Type::LARGE_BINARY;
            int64_t size = 0;
            if (a.buffers[1] && end > 0) {
                size = large ? static_cast<const int64_t*>(a.buffers[1])[end] : static_cast<const int32_t*>(a.buffers[1])[end];
            }
            d->buffers = {buf(0, bit_util::BytesForBits(end)), buf(1, (end + 1) * (large ? 8 : 4)), buf(2, size)};
            break;
        }
        case Type::LIST:
        case Type::MAP: {
            ARROW_RETURN_NOT_OK(expect(2, 1));
            d->buffers = {buf(0, bit_util::BytesForBits(end)), buf(1, (end + 1) * 4)};
            ARROW_ASSIGN_OR_RAISE(auto c, ImportData(*a.children[0], t->field(0)->type(), own));
            d->child_data = {c};
            break;
        }
        case Type::STRUCT: {
            ARROW_RETURN_NOT_OK(expect(1, t->num_fields()));
            d->buffers = {buf(0, bit_util::BytesForBits(end))};
            for (int i = 0; i < t->num_fields(); i++) {
                ARROW_ASSIGN_OR_RAISE(auto c, ImportData(*a.children[i], t->field(i)->type(), own));
                d->child_data.push_back(c);
            }
            break;
        }
        case Type::DICTIONARY: {
            ARROW_RETURN_NOT_OK(expect(2, 0));
            auto& dt = static_cast<const DictionaryType&>(*t);
            d->buffers = {buf(0, bit_util::BytesForBits(end)), buf(1, bit_util::BytesForBits(end * dt.index_type()->bit_width()))};
            if (!a.dictionary) return Status::Invalid("ArrowArray struct has no dictionary");
            ARROW_ASSIGN_OR_RAISE(d->dictionary, ImportData(*a.dictionary, dt.value_type(), own));
            break;
        }
        default:
            ARROW_RETURN_NOT_OK(expect(2, 0));
            d->buffers = {buf(0, bit_util::BytesForBits(end)), buf(1, bit_util::BytesForBits(end * t->bit_width()))};
    }
    if (d->buffers[0] == nullptr) d->null_count = 0;
    return d;
}
Result<std::shared_ptr<Field>> FieldOf(const ArrowSchema& s) {
    std::string f = s.format;
    std::shared_ptr<DataType> t;
    static const std::map<std::string, std::shared_ptr<DataType> (*)()> simple = {
#define MINI_F(X, F) {X, +[]() -> std::shared_ptr<DataType> { return F(); }}
        MINI_F("n", null),         MINI_F("b", boolean), MINI_F("c", int8),    MINI_F("C", uint8),
        MINI_F("s", int16),        MINI_F("S", uint16),  MINI_F("i", int32),   MINI_F("I", uint32),
        MINI_F("l", int64),        MINI_F("L", uint64),  MINI_F("f", float32), MINI_F("g", float64),
        MINI_F("z", binary),       MINI_F("u", utf8),    MINI_F("tdD", date32),
        MINI_F("Z", large_binary), MINI_F("U", large_utf8)};
#undef MINI_F
    auto it = simple.find(f);
    if (it != simple.end()) {
        t = it->second();
    } else if (f.rfind("w:", 0) == 0) {
        t = fixed_size_binary(atoi(f.c_str() + 2));
    } else if (f.rfind("d:", 0) == 0) {
        int p = 0, sc = 0;
        if (sscanf(f.c_str(), "d:%d,%d", &p, &sc) != 2) return Status::Invalid("Invalid decimal format: ", f);
        ARROW_ASSIGN_OR_RAISE(t, Decimal128Type::Make(p, sc));
    } else if (f.size() >= 4 && f.rfind("ts", 0) == 0 && f[3] == ':') {
        static const std::string units = "smun";
        if (units.find(f[2]) == std::string::npos) return Status::Invalid("Invalid or unsupported format string: '", f, "'");
        t = timestamp(static_cast<TimeUnit::type>(units.find(f[2])), f.substr(4));
    } else if (f == "+l" || f == "+m") {
        if (s.n_children != 1) return Status::Invalid("Expected 1 children for imported format '", f, "'");
        ARROW_ASSIGN_OR_RAISE(auto c, FieldOf(*s.children[0]));
        if (f == "+l") {
            t = list(c);
        } else {
            if (c->type()->id() != Type::STRUCT || c->type()->num_fields() != 2) {
                return Status::Invalid("Imported map array has unexpected child field type: ", c->ToString());
            }
            t = std::make_shared<MapType>(c, (s.flags & ARROW_FLAG_MAP_KEYS_SORTED) != 0);
        }
    } else if (f == "+s") {
        FieldVector v;
        for (int64_t i = 0; i < s.n_children; i++) {
            ARROW_ASSIGN_OR_RAISE(auto c, FieldOf(*s.children[i]));
            v.push_back(c);
        }
        t = struct_(v);
    } else {
        return Status::Invalid("Invalid or unsupported format string: '", f, "'");
    }
    if (s.dictionary) {
        ARROW_ASSIGN_OR_RAISE(auto c, FieldOf(*s.dictionary));
        t = dictionary(t, c->type(), (s.flags & ARROW_FLAG_DICTIONARY_ORDERED) != 0);
    }
    return field(s.name ? s.name : "", t, (s.flags & ARROW_FLAG_NULLABLE) != 0, DecodeMetadata(s.metadata));
}
}  // namespace
Status ExportType(const DataType& t, ArrowSchema* out) {
    return FillSchema("", t, true, nullptr, out);
}
Status ExportField(const Field& f, ArrowSchema* out) {
    return FillSchema(f.name(), *f.type(), f.nullable(), f.metadata().get(), out);
}
Status ExportSchema(const Schema& s, ArrowSchema* out) {
    StructType t(s.fields());
    ARROW_RETURN_NOT_OK(FillSchema("", t, false, s.metadata().get(), out));
    return Status::OK();
}
Status ExportArray(const Array& a, ArrowArray* out, ArrowSchema* schema) {
    if (schema) ARROW_RETURN_NOT_OK(ExportType(*a.type(), schema));
    FillArray(a.data(), out);
    return Status::OK();
}
Status ExportRecordBatch(const RecordBatch& b, ArrowArray* out, ArrowSchema* schema) {
    ARROW_ASSIGN_OR_RAISE(auto s, b.ToStructArray());
    if (schema) ARROW_RETURN_NOT_OK(ExportSchema(*b.schema(), schema));
    FillArray(s->data(), out);
    return Status::OK();
}
Result<std::shared_ptr<Field>> ImportField(ArrowSchema* s) {
    if (ArrowSchemaIsReleased(s)) return Status::Invalid("Cannot import released ArrowSchema");
    auto r = FieldOf(*s);
    ArrowSchemaRelease(s);
    return r;
}
Result<std::shared_ptr<DataType>> ImportType(ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(auto f, ImportField(s));
    return f->type();
}
Result<std::shared_ptr<Schema>> ImportSchema(ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(auto f, ImportField(s));
    if (f->type()->id() != Type::STRUCT) return Status::Invalid("Cannot import schema: ArrowSchema describes non-struct type ", f->type()->ToString());
    return schema(f->type()->fields(), f->metadata());
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, std::shared_ptr<DataType> t) {
    if (ArrowArrayIsReleased(a)) return Status::Invalid("Cannot import released ArrowArray");
    auto own = std::make_shared<Imported>();
    ArrowArrayMove(a, &own->a);
    ARROW_ASSIGN_OR_RAISE(auto d, ImportData(own->a, t, own));
    return MakeArray(d);
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, ArrowSchema* s) {
    auto t = ImportType(s);
    if (!t.ok()) {
        ArrowArrayRelease(a);
        return t.status();
    }
    return ImportArray(a, *t);
}
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray* a, std::shared_ptr<Schema> s) {
    ARROW_ASSIGN_OR_RAISE(auto arr, ImportArray(a, struct_(s->fields())));
    return RecordBatch::Make(s, arr->length(), static_cast<const StructArray&>(*arr).fields());
}
Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(ArrowArray* a, ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(auto sc, ImportSchema(s));
    return ImportRecordBatch(a, sc);
}

}  // namespace arrow

namespace arrow_vendored::date {
const time_zone* current_zone() {
    static const auto* z = new time_zone{"UTC"};
    return z;
}
}  // namespace arrow_vendored::date
