#pragma once
#include "arrow/mini_base.h"

namespace arrow {

constexpr int64_t kUnknownNullCount = -1;

// ---------------------------------------------------------------- array data
struct ArrayData {
    ArrayData() = default;
    ArrayData(std::shared_ptr<DataType> t, int64_t len, int64_t nc = kUnknownNullCount,
              int64_t off = 0)
        : type(std::move(t)), length(len), null_count(nc), offset(off) {}
    ArrayData(std::shared_ptr<DataType> t, int64_t len, std::vector<std::shared_ptr<Buffer>> b,
              int64_t nc = kUnknownNullCount, int64_t off = 0)
        : type(std::move(t)), length(len), null_count(nc), offset(off), buffers(std::move(b)) {}
    ArrayData(std::shared_ptr<DataType> t, int64_t len, std::vector<std::shared_ptr<Buffer>> b,
              std::vector<std::shared_ptr<ArrayData>> c, int64_t nc = kUnknownNullCount,
              int64_t off = 0)
        : type(std::move(t)),
          length(len),
          null_count(nc),
          offset(off),
          buffers(std::move(b)),
          child_data(std::move(c)) {}
    ArrayData(const ArrayData& o)
        : type(o.type),
          length(o.length),
          null_count(o.null_count.load()),
          offset(o.offset),
          buffers(o.buffers),
          child_data(o.child_data),
          dictionary(o.dictionary) {}
    ArrayData& operator=(const ArrayData& o) {
        type = o.type;
        length = o.length;
        null_count = o.null_count.load();
        offset = o.offset;
        buffers = o.buffers;
        child_data = o.child_data;
        dictionary = o.dictionary;
        return *this;
    }
    template <typename... A>
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> t, int64_t len, A&&... a) {
        return std::make_shared<ArrayData>(std::move(t), len, std::forward<A>(a)...);
    }
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> t, int64_t len,
                                           std::vector<std::shared_ptr<Buffer>> b,
                                           int64_t nc = kUnknownNullCount, int64_t off = 0) {
        return std::make_shared<ArrayData>(std::move(t), len, std::move(b), nc, off);
    }
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> t, int64_t len,
                                           std::vector<std::shared_ptr<Buffer>> b,
                                           std::vector<std::shared_ptr<ArrayData>> c,
                                           int64_t nc = kUnknownNullCount, int64_t off = 0) {
        return std::make_shared<ArrayData>(std::move(t), len, std::move(b), std::move(c), nc, off);
    }
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> t, int64_t len,
                                           std::vector<std::shared_ptr<Buffer>> b,
                                           std::vector<std::shared_ptr<ArrayData>> c,
                                           std::shared_ptr<ArrayData> dict,
                                           int64_t nc = kUnknownNullCount, int64_t off = 0) {
        auto r = std::make_shared<ArrayData>(std::move(t), len, std::move(b), std::move(c), nc, off);
        r->dictionary = std::move(dict);
        return r;
    }
    std::shared_ptr<ArrayData> Copy() const {
        return std::make_shared<ArrayData>(*this);
    }
    std::shared_ptr<ArrayData> Slice(int64_t off, int64_t len) const;
    int64_t GetNullCount() const;
    void SetNullCount(int64_t v) {
        null_count = v;
    }
    bool MayHaveNulls() const {
        return null_count.load() != 0 && !buffers.empty() && buffers[0] != nullptr;
    }
    bool IsNull(int64_t i) const {
        return !IsValid(i);
    }
    bool IsValid(int64_t i) const {
        if (type->id() == Type::NA) return false;
        return buffers.empty() || buffers[0] == nullptr ||
               bit_util::GetBit(buffers[0]->data(), static_cast<uint64_t>(i + offset));
    }
    template <typename T>
    const T* GetValues(int i, int64_t abs) const {
        return buffers[i] ? reinterpret_cast<const T*>(buffers[i]->data()) + abs : nullptr;
    }
    template <typename T>
    const T* GetValues(int i) const {
        return GetValues<T>(i, offset);
    }
    template <typename T>
    T* GetMutableValues(int i) {
        return buffers[i] ? reinterpret_cast<T*>(buffers[i]->mutable_data()) + offset : nullptr;
    }

    std::shared_ptr<DataType> type;
    int64_t length = 0;
    mutable std::atomic<int64_t> null_count{0};
    int64_t offset = 0;
    std::vector<std::shared_ptr<Buffer>> buffers;
    std::vector<std::shared_ptr<ArrayData>> child_data;
    std::shared_ptr<ArrayData> dictionary;
};

struct EqualOptions {
    bool nans = false;
    bool approx = false;
    EqualOptions diff_sink(std::ostream*) const {
        return *this;
    }
    static EqualOptions Defaults() {
        return {};
    }
    EqualOptions nans_equal(bool v) const {
        EqualOptions r = *this;
        r.nans = v;
        return r;
    }
};

class Array {
 public:
    virtual ~Array() = default;
    bool IsNull(int64_t i) const {
        return data_->IsNull(i);
    }
    bool IsValid(int64_t i) const {
        return data_->IsValid(i);
    }
    Result<std::shared_ptr<Scalar>> GetScalar(int64_t i) const;
    int64_t length() const {
        return data_->length;
    }
    int64_t offset() const {
        return data_->offset;
    }
    int64_t null_count() const {
        return data_->GetNullCount();
    }
    const std::shared_ptr<DataType>& type() const {
        return data_->type;
    }
    Type::type type_id() const {
        return data_->type->id();
    }
    const std::shared_ptr<Buffer>& null_bitmap() const {
        return data_->buffers[0];
    }
    const uint8_t* null_bitmap_data() const {
        return data_->buffers.empty() || !data_->buffers[0] ? nullptr : data_->buffers[0]->data();
    }
    const std::shared_ptr<ArrayData>& data() const {
        return data_;
    }
    bool Equals(const Array& o, const EqualOptions& opt = EqualOptions::Defaults()) const;
    bool Equals(const std::shared_ptr<Array>& o,
                const EqualOptions& opt = EqualOptions::Defaults()) const {
        return o && Equals(*o, opt);
    }
    bool ApproxEquals(const Array& o, EqualOptions opt = EqualOptions::Defaults()) const {
        opt.approx = true;
        return Equals(o, opt);
    }
    bool ApproxEquals(const std::shared_ptr<Array>& o,
                      EqualOptions opt = EqualOptions::Defaults()) const {
        return o && ApproxEquals(*o, opt);
    }
    bool RangeEquals(int64_t start, int64_t end, int64_t other_start, const Array& o,
                     const EqualOptions& opt = EqualOptions::Defaults()) const;
    bool RangeEquals(int64_t start, int64_t end, int64_t other_start,
                     const std::shared_ptr<Array>& o,
                     const EqualOptions& opt = EqualOptions::Defaults()) const {
        return o && RangeEquals(start, end, other_start, *o, opt);
    }
    std::shared_ptr<Array> Slice(int64_t off, int64_t len) const;
    std::shared_ptr<Array> Slice(int64_t off) const {
        return Slice(off, length() - off);
    }
    int num_fields() const {
        return static_cast<int>(data_->child_data.size());
    }
    std::string ToString() const;
    Status Validate() const;
    Status ValidateFull() const {
        return Validate();
    }
    std::string Diff(const Array& o) const {
        return "--- " + ToString() + "\n+++ " + o.ToString();
    }
    Result<std::shared_ptr<Array>> View(const std::shared_ptr<DataType>& t) const;

 protected:
    Array() = default;
    void SetData(const std::shared_ptr<ArrayData>& d) {
        data_ = d;
    }
    std::shared_ptr<ArrayData> data_;
};
inline std::ostream& operator<<(std::ostream& os, const Array& a) {
    return os << a.ToString();
}

class NullArray : public Array {
 public:
    using TypeClass = NullType;
    explicit NullArray(const std::shared_ptr<ArrayData>& d) {
        SetData(d);
    }
    explicit NullArray(int64_t n) {
        SetData(ArrayData::Make(null(), n, std::vector<std::shared_ptr<Buffer>>{nullptr}, n));
    }
};
class FlatArray : public Array {};
class PrimitiveArray : public FlatArray {
 public:
    std::shared_ptr<Buffer> values() const {
        return data_->buffers[1];
    }
};
class BooleanArray : public PrimitiveArray {
 public:
    using TypeClass = BooleanType;
    explicit BooleanArray(const std::shared_ptr<ArrayData>& d) {
        SetData(d);
    }
    bool Value(int64_t i) const {
        return bit_util::GetBit(data_->buffers[1]->data(), static_cast<uint64_t>(i + data_->offset));
    }
    bool GetView(int64_t i) const {
        return Value(i);
    }
    std::optional<bool> operator[](int64_t i) const {
        return IsNull(i) ? std::optional<bool>() : Value(i);
    }
    int64_t true_count() const {
        int64_t n = 0;
        for (int64_t i = 0; i < length(); i++) n += IsValid(i) && Value(i);
        return n;
    }
};
template <typename TYPE>
class NumericArray : public PrimitiveArray {
 public:
    using TypeClass = TYPE;
    using value_type = typename TYPE::c_type;
    explicit NumericArray(const std::shared_ptr<ArrayData>& d) {
        SetData(d);
    }
    template <typename T1 = TYPE,
              typename = std::enable_if_t<!std::is_same_v<T1, TimestampType>>>
    NumericArray(int64_t length, const std::shared_ptr<Buffer>& data,
                 const std::shared_ptr<Buffer>& nulls = nullptr, int64_t nc = kUnknownNullCount,
                 int64_t off = 0) {
        SetData(ArrayData::Make(std::make_shared<T1>(), length,
                                std::vector<std::shared_ptr<Buffer>>{nulls, data}, nc, off));
    }
    NumericArray(const std::shared_ptr<DataType>& t, int64_t length,
                 const std::shared_ptr<Buffer>& data,
                 const std::shared_ptr<Buffer>& nulls = nullptr, int64_t nc = kUnknownNullCount,
                 int64_t off = 0) {
        SetData(ArrayData::Make(t, length, std::vector<std::shared_ptr<Buffer>>{nulls, data}, nc,
                                off));
    }
    const value_type* raw_values() const {
        return data_->GetValues<value_type>(1);
    }
    value_type Value(int64_t i) const {
        return raw_values()[i];
    }
    value_type GetView(int64_t i) const {
        return Value(i);
    }
    std::optional<value_type> operator[](int64_t i) const {
        return IsNull(i) ? std::optional<value_type>() : Value(i);
    }
};
using Int8Array = NumericArray<Int8Type>;
using UInt8Array = NumericArray<UInt8Type>;
using Int16Array = NumericArray<Int16Type>;
using UInt16Array = NumericArray<UInt16Type>;
using Int32Array = NumericArray<Int32Type>;
using UInt32Array = NumericArray<UInt32Type>;
using Int64Array = NumericArray<Int64Type>;
using UInt64Array = NumericArray<UInt64Type>;
using FloatArray = NumericArray<FloatType>;
using DoubleArray = NumericArray<DoubleType>;
using Date32Array = NumericArray<Date32Type>;
using TimestampArray = NumericArray<TimestampType>;

template <typename TYPE>
class BaseBinaryArray : public FlatArray {
 public:
    using TypeClass = TYPE;
    using offset_type = typename TYPE::offset_type;
    std::string_view GetView(int64_t i) const {
        const offset_type* o = raw_value_offsets();
        const uint8_t* d = data_->buffers[2] ? data_->buffers[2]->data() : nullptr;
        return std::string_view(reinterpret_cast<const char*>(d) + (d ? o[i] : 0),
                                static_cast<size_t>(o[i + 1] - o[i]));
    }
    std::string_view Value(int64_t i) const {
        return GetView(i);
    }
    std::string GetString(int64_t i) const {
        return std::string(GetView(i));
    }
    const uint8_t* GetValue(int64_t i, offset_type* len) const {
        auto v = GetView(i);
        *len = static_cast<offset_type>(v.size());
        return reinterpret_cast<const uint8_t*>(v.data());
    }
    std::optional<std::string_view> operator[](int64_t i) const {
        return IsNull(i) ? std::optional<std::string_view>() : GetView(i);
    }
    std::shared_ptr<Buffer> value_offsets() const {
        return data_->buffers[1];
    }
    std::shared_ptr<Buffer> value_data() const {
        return data_->buffers[2];
    }
    const offset_type* raw_value_offsets() const {
        return data_->template GetValues<offset_type>(1);
    }
    const uint8_t* raw_data() const {
        return data_->buffers[2] ? data_->buffers[2]->data() : nullptr;
    }
    offset_type value_offset(int64_t i) const {
        return raw_value_offsets()[i];
    }
    offset_type value_length(int64_t i) const {
        return raw_value_offsets()[i + 1] - raw_value_offsets()[i];
    }
    offset_type total_values_length() const {
        return length() > 0 ? raw_value_offsets()[length()] - raw_value_offsets()[0] : 0;
    }
};
#define MINI_BIN_ARRAY(CLASS, BASE, TYPE, FACTORY)                                              \
    class CLASS : public BASE {                                                                 \
     public:                                                                                    \
        using TypeClass = TYPE;                                                                 \
        explicit CLASS(const std::shared_ptr<ArrayData>& d) : CLASS() {                         \
            SetData(d);                                                                         \
        }                                                                                       \
        CLASS(int64_t length, const std::shared_ptr<Buffer>& off,                               \
              const std::shared_ptr<Buffer>& data,                                              \
              const std::shared_ptr<Buffer>& nulls = nullptr, int64_t nc = kUnknownNullCount,   \
              int64_t o = 0)                                                                    \
            : CLASS() {                                                                         \
            SetData(ArrayData::Make(FACTORY(), length,                                          \
                                    std::vector<std::shared_ptr<Buffer>>{nulls, off, data}, nc, \
                                    o));                                                        \
        }                                                                                       \
                                                                                                \
     protected:                                                                                 \
        CLASS() = default;                                                                      \
    };
MINI_BIN_ARRAY(BinaryArray, BaseBinaryArray<BinaryType>, BinaryType, binary)
MINI_BIN_ARRAY(StringArray, BinaryArray, StringType, utf8)
MINI_BIN_ARRAY(LargeBinaryArray, BaseBinaryArray<LargeBinaryType>, LargeBinaryType, large_binary)
MINI_BIN_ARRAY(LargeStringArray, LargeBinaryArray, LargeStringType, large_utf8)
#undef MINI_BIN_ARRAY

class FixedSizeBinaryArray : public PrimitiveArray {
 public:
    using TypeClass = FixedSizeBinaryType;
    explicit FixedSizeBinaryArray(const std::shared_ptr<ArrayData>& d) {
        SetData(d);
    }
    int32_t byte_width() const {
        return static_cast<const FixedSizeBinaryType&>(*type()).byte_width();
    }
    const uint8_t* GetValue(int64_t i) const {
        return data_->buffers[1]->data() + (i + data_->offset) * byte_width();
    }
    const uint8_t* Value(int64_t i) const {
        return GetValue(i);
    }
    std::string_view GetView(int64_t i) const {
        return {reinterpret_cast<const char*>(GetValue(i)), static_cast<size_t>(byte_width())};
    }
    std::string GetString(int64_t i) const {
        return std::string(GetView(i));
    }
};
class Decimal128Array : public FixedSizeBinaryArray {
 public:
    using TypeClass = Decimal128Type;
    using FixedSizeBinaryArray::FixedSizeBinaryArray;
    std::string FormatValue(int64_t i) const {
        return Decimal128(GetValue(i))
            .ToString(static_cast<const Decimal128Type&>(*type()).scale());
    }
};
using DecimalArray = Decimal128Array;

class ListArray : public Array {
 public:
    using TypeClass = ListType;
    using offset_type = int32_t;
    explicit ListArray(const std::shared_ptr<ArrayData>& d) {
        Init(d);
    }
    ListArray(std::shared_ptr<DataType> t, int64_t length, std::shared_ptr<Buffer> off,
              std::shared_ptr<Array> values, std::shared_ptr<Buffer> nulls = nullptr,
              int64_t nc = kUnknownNullCount, int64_t o = 0) {
        Init(ArrayData::Make(std::move(t), length,
                             std::vector<std::shared_ptr<Buffer>>{nulls, off},
                             ArrayDataVector{values->data()}, nc, o));
    }
    static Result<std::shared_ptr<ListArray>> FromArrays(const Array& offsets, const Array& values,
                                                         MemoryPool* pool = default_memory_pool());
    const std::shared_ptr<Array>& values() const {
        return values_;
    }
    std::shared_ptr<Array> value_slice(int64_t i) const {
        return values_->Slice(value_offset(i), value_length(i));
    }
    const std::shared_ptr<DataType>& value_type() const {
        return static_cast<const BaseListType&>(*type()).value_type();
    }
    const ListType* list_type() const {
        return static_cast<const ListType*>(type().get());
    }
    std::shared_ptr<Buffer> value_offsets() const {
        return data_->buffers[1];
    }
    const int32_t* raw_value_offsets() const {
        return data_->GetValues<int32_t>(1);
    }
    int32_t value_offset(int64_t i) const {
        return raw_value_offsets()[i];
    }
    int32_t value_length(int64_t i) const {
        return raw_value_offsets()[i + 1] - raw_value_offsets()[i];
    }
    std::shared_ptr<Array> offsets() const;

 protected:
    ListArray() = default;
    void Init(const std::shared_ptr<ArrayData>& d);
    std::shared_ptr<Array> values_;
};
class MapArray : public ListArray {
 public:
    using TypeClass = MapType;
    explicit MapArray(const std::shared_ptr<ArrayData>& d);
    MapArray(const std::shared_ptr<DataType>& t, int64_t length,
             const std::shared_ptr<Buffer>& off, const std::shared_ptr<Array>& keys,
             const std::shared_ptr<Array>& items, const std::shared_ptr<Buffer>& nulls = nullptr,
             int64_t nc = kUnknownNullCount, int64_t o = 0);
    MapArray(const std::shared_ptr<DataType>& t, int64_t length,
             const std::shared_ptr<Buffer>& off, const std::shared_ptr<Array>& values,
             const std::shared_ptr<Buffer>& nulls = nullptr, int64_t nc = kUnknownNullCount,
             int64_t o = 0)
        : MapArray(ArrayData::Make(t, length, std::vector<std::shared_ptr<Buffer>>{nulls, off},
                                   ArrayDataVector{values->data()}, nc, o)) {}
    static Result<std::shared_ptr<Array>> FromArrays(const std::shared_ptr<Array>& offsets,
                                                     const std::shared_ptr<Array>& keys,
                                                     const std::shared_ptr<Array>& items,
                                                     MemoryPool* pool = default_memory_pool());
    const MapType* map_type() const {
        return static_cast<const MapType*>(type().get());
    }
    const std::shared_ptr<Array>& keys() const {
        return keys_;
    }
    const std::shared_ptr<Array>& items() const {
        return items_;
    }

 private:
    std::shared_ptr<Array> keys_, items_;
};
class StructArray : public Array {
 public:
    using TypeClass = StructType;
    explicit StructArray(const std::shared_ptr<ArrayData>& d);
    StructArray(const std::shared_ptr<DataType>& t, int64_t length, const ArrayVector& children,
                std::shared_ptr<Buffer> nulls = nullptr, int64_t nc = kUnknownNullCount,
                int64_t off = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children,
                                                     const std::vector<std::string>& names,
                                                     std::shared_ptr<Buffer> nulls = nullptr,
                                                     int64_t nc = kUnknownNullCount,
                                                     int64_t off = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children,
                                                     const FieldVector& fields,
                                                     std::shared_ptr<Buffer> nulls = nullptr,
                                                     int64_t nc = kUnknownNullCount,
                                                     int64_t off = 0);
    const StructType* struct_type() const {
        return static_cast<const StructType*>(type().get());
    }
    const std::shared_ptr<Array>& field(int i) const {
        return boxed_[i];
    }
    const ArrayVector& fields() const {
        return boxed_;
    }
    std::shared_ptr<Array> GetFieldByName(const std::string& n) const {
        int i = struct_type()->GetFieldIndex(n);
        return i < 0 ? nullptr : boxed_[i];
    }
    Result<ArrayVector> Flatten(MemoryPool* pool = default_memory_pool()) const;

 private:
    void Init(const std::shared_ptr<ArrayData>& d);
    ArrayVector boxed_;
};
class DictionaryArray : public Array {
 public:
    using TypeClass = DictionaryType;
    explicit DictionaryArray(const std::shared_ptr<ArrayData>& d);
    DictionaryArray(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& indices,
                    const std::shared_ptr<Array>& dict);
    static Result<std::shared_ptr<Array>> FromArrays(const std::shared_ptr<DataType>& t,
                                                     const std::shared_ptr<Array>& indices,
                                                     const std::shared_ptr<Array>& dict) {
        return std::shared_ptr<Array>(std::make_shared<DictionaryArray>(t, indices, dict));
    }
    const std::shared_ptr<Array>& indices() const {
        return indices_;
    }
    const std::shared_ptr<Array>& dictionary() const {
        return dict_;
    }
    int64_t GetValueIndex(int64_t i) const;
    const DictionaryType* dict_type() const {
        return static_cast<const DictionaryType*>(type().get());
    }

 private:
    std::shared_ptr<Array> indices_, dict_;
};

std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d);
Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& t, int64_t n,
                                               MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& s, int64_t n,
                                                   MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> MakeEmptyArray(std::shared_ptr<DataType> t,
                                              MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& a,
                                           MemoryPool* pool = default_memory_pool());

// ---------------------------------------------------------------- scalars
struct Scalar : public std::enable_shared_from_this<Scalar> {
    virtual ~Scalar() = default;
    std::shared_ptr<DataType> type;
    bool is_valid = false;
    std::string ToString() const;
    bool Equals(const Scalar& o) const;
    bool Equals(const std::shared_ptr<Scalar>& o) const {
        return o && Equals(*o);
    }

 protected:
    Scalar(std::shared_ptr<DataType> t, bool valid) : type(std::move(t)), is_valid(valid) {}
};
struct NullScalar : public Scalar {
    NullScalar() : Scalar(null(), false) {}
};
template <typename CType>
struct PrimScalar : public Scalar {
    using ValueType = CType;
    CType value{};
    const void* data() const {
        return &value;
    }
    void* mutable_data() {
        return &value;
    }
    std::string_view view() const {
        return {reinterpret_cast<const char*>(&value), sizeof(CType)};
    }

 protected:
    PrimScalar(CType v, std::shared_ptr<DataType> t) : Scalar(std::move(t), true), value(v) {}
    explicit PrimScalar(std::shared_ptr<DataType> t) : Scalar(std::move(t), false) {}
};
struct BooleanScalar : public PrimScalar<bool> {
    using TypeClass = BooleanType;
    explicit BooleanScalar(bool v) : PrimScalar(v, boolean()) {}
    BooleanScalar(bool v, std::shared_ptr<DataType> t) : PrimScalar(v, std::move(t)) {}
    BooleanScalar() : PrimScalar(boolean()) {}
};
template <typename T>
struct NumericScalar : public PrimScalar<typename T::c_type> {
    using TypeClass = T;
    using B = PrimScalar<typename T::c_type>;
    explicit NumericScalar(typename T::c_type v) : B(v, std::make_shared<T>()) {}
    NumericScalar(typename T::c_type v, std::shared_ptr<DataType> t) : B(v, std::move(t)) {}
    explicit NumericScalar(std::shared_ptr<DataType> t) : B(std::move(t)) {}
    NumericScalar() : B(std::make_shared<T>()) {}
};
using Int8Scalar = NumericScalar<Int8Type>;
using UInt8Scalar = NumericScalar<UInt8Type>;
using Int16Scalar = NumericScalar<Int16Type>;
using UInt16Scalar = NumericScalar<UInt16Type>;
using Int32Scalar = NumericScalar<Int32Type>;
using UInt32Scalar = NumericScalar<UInt32Type>;
using Int64Scalar = NumericScalar<Int64Type>;
using UInt64Scalar = NumericScalar<UInt64Type>;
using FloatScalar = NumericScalar<FloatType>;
using DoubleScalar = NumericScalar<DoubleType>;
using Date32Scalar = NumericScalar<Date32Type>;
struct TimestampScalar : public PrimScalar<int64_t> {
    using TypeClass = TimestampType;
    TimestampScalar(int64_t v, std::shared_ptr<DataType> t) : PrimScalar(v, std::move(t)) {}
    TimestampScalar(int64_t v, TimeUnit::type u, const std::string& tz = "")
        : PrimScalar(v, timestamp(u, tz)) {}
    explicit TimestampScalar(std::shared_ptr<DataType> t) : PrimScalar(std::move(t)) {}
};
struct BaseBinaryScalar : public Scalar {
    std::shared_ptr<Buffer> value;
    std::string_view view() const {
        return value ? std::string_view(*value) : std::string_view();
    }
    const void* data() const {
        return value ? value->data() : nullptr;
    }

 protected:
    BaseBinaryScalar(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t)
        : Scalar(std::move(t), true), value(std::move(v)) {}
    explicit BaseBinaryScalar(std::shared_ptr<DataType> t) : Scalar(std::move(t), false) {}
};
#define MINI_BIN_SCALAR(CLASS, BASE, TYPE, FACTORY)                                     \
    struct CLASS : public BASE {                                                        \
        using TypeClass = TYPE;                                                         \
        explicit CLASS(std::shared_ptr<Buffer> v) : CLASS(std::move(v), FACTORY()) {}   \
        explicit CLASS(std::string s) : CLASS(Buffer::FromString(std::move(s))) {}      \
        CLASS() : CLASS(FACTORY()) {}                                                   \
        CLASS(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t)                   \
            : BASE(std::move(v), std::move(t)) {}                                       \
        explicit CLASS(std::shared_ptr<DataType> t) : BASE(std::move(t)) {}             \
    };
MINI_BIN_SCALAR(BinaryScalar, BaseBinaryScalar, BinaryType, binary)
MINI_BIN_SCALAR(StringScalar, BinaryScalar, StringType, utf8)
MINI_BIN_SCALAR(LargeBinaryScalar, BaseBinaryScalar, LargeBinaryType, large_binary)
MINI_BIN_SCALAR(LargeStringScalar, LargeBinaryScalar, LargeStringType, large_utf8)
#undef MINI_BIN_SCALAR
struct Decimal128Scalar : public Scalar {
    using TypeClass = Decimal128Type;
    using ValueType = Decimal128;
    Decimal128 value;
    Decimal128Scalar(Decimal128 v, std::shared_ptr<DataType> t)
        : Scalar(std::move(t), true), value(v) {}
    explicit Decimal128Scalar(std::shared_ptr<DataType> t) : Scalar(std::move(t), false) {}
    const void* data() const {
        return &value;
    }
};
// Any other single value, held as an array of one row.
struct BoxedScalar : public Scalar {
    explicit BoxedScalar(std::shared_ptr<Array> a)
        : Scalar(a->type(), a->IsValid(0)), value(std::move(a)) {}
    std::shared_ptr<Array> value;
};

class RecordBatch {
 public:
    RecordBatch(std::shared_ptr<Schema> s, int64_t n, ArrayVector c)
        : schema_(std::move(s)), n_(n), columns_(std::move(c)) {}
    static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, ArrayVector c) {
        return std::make_shared<RecordBatch>(std::move(s), n, std::move(c));
    }
    static Result<std::shared_ptr<RecordBatch>> FromStructArray(const std::shared_ptr<Array>& a);
    Result<std::shared_ptr<StructArray>> ToStructArray() const {
        return StructArray::Make(columns_, schema_->fields());
    }
    const std::shared_ptr<Schema>& schema() const {
        return schema_;
    }
    int64_t num_rows() const {
        return n_;
    }
    int num_columns() const {
        return static_cast<int>(columns_.size());
    }
    std::shared_ptr<Array> column(int i) const {
        return columns_[i];
    }
    const ArrayVector& columns() const {
        return columns_;
    }
    const std::string& column_name(int i) const {
        return schema_->field(i)->name();
    }
    std::shared_ptr<Array> GetColumnByName(const std::string& n) const {
        int i = schema_->GetFieldIndex(n);
        return i < 0 ? nullptr : columns_[i];
    }
    bool Equals(const RecordBatch& o) const;

 private:
    std::shared_ptr<Schema> schema_;
    int64_t n_;
    ArrayVector columns_;
};

class ChunkedArray {
 public:
    explicit ChunkedArray(ArrayVector c) : ChunkedArray(c, c.at(0)->type()) {}
    explicit ChunkedArray(std::shared_ptr<Array> c) : ChunkedArray(ArrayVector{std::move(c)}) {}
    ChunkedArray(ArrayVector c, std::shared_ptr<DataType> t)
        : chunks_(std::move(c)), type_(std::move(t)) {
        for (auto& a : chunks_) {
            length_ += a->length();
            nulls_ += a->null_count();
        }
    }
    static Result<std::shared_ptr<ChunkedArray>> Make(ArrayVector c,
                                                      std::shared_ptr<DataType> t = nullptr) {
        if (!t && c.empty()) return Status::Invalid("cannot make chunked array from nothing");
        return t ? std::make_shared<ChunkedArray>(c, t) : std::make_shared<ChunkedArray>(c);
    }
    int64_t length() const {
        return length_;
    }
    int64_t null_count() const {
        return nulls_;
    }
    int num_chunks() const {
        return static_cast<int>(chunks_.size());
    }
    std::shared_ptr<Array> chunk(int i) const {
        return chunks_[i];
    }
    const ArrayVector& chunks() const {
        return chunks_;
    }
    const std::shared_ptr<DataType>& type() const {
        return type_;
    }
    bool Equals(const ChunkedArray& o,
                const EqualOptions& opt = EqualOptions::Defaults()) const;
    bool Equals(const std::shared_ptr<ChunkedArray>& o,
                const EqualOptions& opt = EqualOptions::Defaults()) const {
        return o && Equals(*o, opt);
    }
    bool ApproxEquals(const ChunkedArray& o, EqualOptions opt = EqualOptions::Defaults()) const {
        opt.approx = true;
        return Equals(o, opt);
    }
    std::string ToString() const;

 private:
    ArrayVector chunks_;
    std::shared_ptr<DataType> type_;
    int64_t length_ = 0, nulls_ = 0;
};

struct Datum {
    enum Kind { NONE, SCALAR, ARRAY, CHUNKED_ARRAY, RECORD_BATCH, TABLE };
    Datum() = default;
    Datum(std::shared_ptr<Scalar> s) : s_(std::move(s)) {}             // NOLINT
    Datum(std::shared_ptr<Array> a) : a_(std::move(a)) {}              // NOLINT
    Datum(const Array& a) : a_(MakeArray(a.data())) {}                 // NOLINT
    Datum(const std::shared_ptr<ChunkedArray>& c)                      // NOLINT
        : a_(c->num_chunks() ? *Concatenate(c->chunks()) : *MakeEmptyArray(c->type())),
          c_(true) {}
    std::shared_ptr<ChunkedArray> chunked_array() const {
        return std::make_shared<ChunkedArray>(a_);
    }
    bool is_chunked_array() const {
        return c_;
    }
    template <typename T, bool IsArray = std::is_base_of_v<Array, T>,
              bool IsScalar = std::is_base_of_v<Scalar, T>,
              typename = std::enable_if_t<IsArray || IsScalar>>
    Datum(std::shared_ptr<T> v)  // NOLINT
        : Datum(std::shared_ptr<std::conditional_t<IsArray, Array, Scalar>>(std::move(v))) {}
    const std::shared_ptr<Scalar>& scalar() const {
        return s_;
    }
    std::shared_ptr<Array> make_array() const {
        return a_;
    }
    const std::shared_ptr<ArrayData>& array() const {
        return a_->data();
    }
    Kind kind() const {
        return s_ ? SCALAR : a_ ? ARRAY : NONE;
    }
    bool is_array() const {
        return a_ != nullptr;
    }
    bool is_scalar() const {
        return s_ != nullptr;
    }
    std::shared_ptr<DataType> type() const {
        return s_ ? s_->type : a_ ? a_->type() : nullptr;
    }

 private:
    std::shared_ptr<Scalar> s_;
    std::shared_ptr<Array> a_;
    bool c_ = false;
};

// ---------------------------------------------------------------- builders
class ArrayBuilder {
 public:
    explicit ArrayBuilder(MemoryPool* pool, int64_t = kDefaultBufferAlignment)
        : pool_(pool), nulls_(pool) {}
    virtual ~ArrayBuilder() = default;
    ArrayBuilder* child(int i) {
        return children_[i].get();
    }
    const std::shared_ptr<ArrayBuilder>& child_builder(int i) const {
        return children_[i];
    }
    int num_children() const {
        return static_cast<int>(children_.size());
    }
    virtual int64_t length() const {
        return nulls_.length();
    }
    int64_t null_count() const {
        return nulls_.false_count();
    }
    int64_t capacity() const {
        return capacity_;
    }
    virtual Status Resize(int64_t capacity) {
        capacity_ = std::max(capacity_, capacity);
        return Status::OK();
    }
    Status Reserve(int64_t n) {
        return Resize(length() + n);
    }
    virtual void Reset() {
        nulls_.Reset();
        capacity_ = 0;
    }
    virtual Status AppendNull() = 0;
    virtual Status AppendNulls(int64_t n) {
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(AppendNull());
        return Status::OK();
    }
    virtual Status AppendEmptyValue() = 0;
    virtual Status AppendEmptyValues(int64_t n) {
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(AppendEmptyValue());
        return Status::OK();
    }
    virtual Status AppendScalar(const Scalar& s);
    // Appends rows [off, off+len) of an array of the same type.
    Status AppendArraySlice(const Array& a, int64_t off, int64_t len);
    virtual Status FinishInternal(std::shared_ptr<ArrayData>* out) = 0;
    Status Finish(std::shared_ptr<Array>* out);
    Result<std::shared_ptr<Array>> Finish() {
        std::shared_ptr<Array> r;
        ARROW_RETURN_NOT_OK(Finish(&r));
        return r;
    }
    virtual std::shared_ptr<DataType> type() const = 0;

 protected:
    Status NullBuffer(std::shared_ptr<Buffer>* out, int64_t* count) {
        *count = nulls_.false_count();
        if (*count == 0) {
            nulls_.Reset();
            *out = nullptr;
            return Status::OK();
        }
        return nulls_.Finish(out);
    }
    MemoryPool* pool_;
    TypedBufferBuilder<bool> nulls_;
    int64_t capacity_ = 0;
    std::vector<std::shared_ptr<ArrayBuilder>> children_;
};

class NullBuilder : public ArrayBuilder {
 public:
    explicit NullBuilder(MemoryPool* pool = default_memory_pool()) : ArrayBuilder(pool) {}
    explicit NullBuilder(const std::shared_ptr<DataType>&, MemoryPool* pool) : ArrayBuilder(pool) {}
    int64_t length() const override {
        return n_;
    }
    Status AppendNull() override {
        n_++;
        return Status::OK();
    }
    Status AppendEmptyValue() override {
        return AppendNull();
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        *out = ArrayData::Make(null(), n_, std::vector<std::shared_ptr<Buffer>>{nullptr}, n_);
        n_ = 0;
        return Status::OK();
    }
    std::shared_ptr<DataType> type() const override {
        return null();
    }

 private:
    int64_t n_ = 0;
};

#define MINI_TYPED_FINISH(ARRAY)                                 \
    using ArrayBuilder::Finish;                                  \
    Status Finish(std::shared_ptr<ARRAY>* out) {                 \
        std::shared_ptr<Array> a;                                \
        ARROW_RETURN_NOT_OK(ArrayBuilder::Finish(&a));           \
        *out = std::static_pointer_cast<ARRAY>(a);               \
        return Status::OK();                                     \
    }

class BooleanBuilder : public ArrayBuilder {
 public:
    using TypeClass = BooleanType;
    using value_type = bool;
    explicit BooleanBuilder(MemoryPool* pool = default_memory_pool())
        : ArrayBuilder(pool), v_(pool) {}
    BooleanBuilder(const std::shared_ptr<DataType>&, MemoryPool* pool = default_memory_pool())
        : BooleanBuilder(pool) {}
    Status Append(bool v) {
        ARROW_RETURN_NOT_OK(nulls_.Append(true));
        return v_.Append(v);
    }
    void UnsafeAppend(bool v) {
        (void)Append(v);
    }
    Status AppendNull() override {
        ARROW_RETURN_NOT_OK(nulls_.Append(false));
        return v_.Append(false);
    }
    void UnsafeAppendNull() {
        (void)AppendNull();
    }
    Status AppendEmptyValue() override {
        return Append(false);
    }
    Status AppendValues(const std::vector<bool>& v) {
        for (bool b : v) ARROW_RETURN_NOT_OK(Append(b));
        return Status::OK();
    }
    bool GetValue(int64_t i) const {
        return bit_util::GetBit(v_.data(), static_cast<uint64_t>(i));
    }
    void Reset() override {
        ArrayBuilder::Reset();
        v_.Reset();
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        int64_t n = length(), nc;
        std::shared_ptr<Buffer> nb, vb;
        ARROW_RETURN_NOT_OK(NullBuffer(&nb, &nc));
        ARROW_RETURN_NOT_OK(v_.Finish(&vb));
        *out = ArrayData::Make(boolean(), n, std::vector<std::shared_ptr<Buffer>>{nb, vb}, nc);
        return Status::OK();
    }
    std::shared_ptr<DataType> type() const override {
        return boolean();
    }
    MINI_TYPED_FINISH(BooleanArray)

 private:
    TypedBufferBuilder<bool> v_;
};

template <typename T>
class NumericBuilder : public ArrayBuilder {
 public:
    using TypeClass = T;
    using value_type = typename T::c_type;
    using ArrayType = NumericArray<T>;
    template <typename T1 = T, typename = std::enable_if_t<!std::is_same_v<T1, TimestampType>>>
    explicit NumericBuilder(MemoryPool* pool = default_memory_pool())
        : ArrayBuilder(pool), t_(std::make_shared<T1>()), v_(pool) {}
    NumericBuilder(const std::shared_ptr<DataType>& t, MemoryPool* pool)
        : ArrayBuilder(pool), t_(t), v_(pool) {}
    Status Append(value_type v) {
        ARROW_RETURN_NOT_OK(nulls_.Append(true));
        return v_.Append(v);
    }
    void UnsafeAppend(value_type v) {
        (void)Append(v);
    }
    Status AppendNull() override {
        ARROW_RETURN_NOT_OK(nulls_.Append(false));
        return v_.Append(value_type{});
    }
    void UnsafeAppendNull() {
        (void)AppendNull();
    }
    Status AppendEmptyValue() override {
        return Append(value_type{});
    }
    Status AppendValues(const value_type* v, int64_t n, const uint8_t* valid = nullptr) {
        for (int64_t i = 0; i < n; i++) {
            if (valid && !valid[i]) {
                ARROW_RETURN_NOT_OK(AppendNull());
            } else {
                ARROW_RETURN_NOT_OK(Append(v[i]));
            }
        }
        return Status::OK();
    }
    Status AppendValues(const std::vector<value_type>& v) {
        return AppendValues(v.data(), static_cast<int64_t>(v.size()));
    }
    Status AppendValues(const std::vector<value_type>& v, const std::vector<bool>& ok) {
        for (size_t i = 0; i < v.size(); i++) ARROW_RETURN_NOT_OK(ok[i] ? Append(v[i]) : AppendNull());
        return Status::OK();
    }
    value_type GetValue(int64_t i) const {
        return v_.data()[i];
    }
    value_type& operator[](int64_t i) {
        return v_.mutable_data()[i];
    }
    void Reset() override {
        ArrayBuilder::Reset();
        v_.Reset();
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        int64_t n = length(), nc;
        std::shared_ptr<Buffer> nb, vb;
        ARROW_RETURN_NOT_OK(NullBuffer(&nb, &nc));
        ARROW_RETURN_NOT_OK(v_.Finish(&vb));
        *out = ArrayData::Make(t_, n, std::vector<std::shared_ptr<Buffer>>{nb, vb}, nc);
        return Status::OK();
    }
    std::shared_ptr<DataType> type() const override {
        return t_;
    }
    MINI_TYPED_FINISH(NumericArray<T>)

 private:
    std::shared_ptr<DataType> t_;
    TypedBufferBuilder<value_type> v_;
};
using Int8Builder = NumericBuilder<Int8Type>;
using UInt8Builder = NumericBuilder<UInt8Type>;
using Int16Builder = NumericBuilder<Int16Type>;
using UInt16Builder = NumericBuilder<UInt16Type>;
using Int32Builder = NumericBuilder<Int32Type>;
using UInt32Builder = NumericBuilder<UInt32Type>;
using Int64Builder = NumericBuilder<Int64Type>;
using UInt64Builder = NumericBuilder<UInt64Type>;
using FloatBuilder = NumericBuilder<FloatType>;
using DoubleBuilder = NumericBuilder<DoubleType>;
using Date32Builder = NumericBuilder<Date32Type>;
using TimestampBuilder = NumericBuilder<TimestampType>;

template <typename T>
class BaseBinaryBuilder : public ArrayBuilder {
 public:
    using TypeClass = T;
    using offset_type = typename T::offset_type;
    explicit BaseBinaryBuilder(MemoryPool* pool = default_memory_pool())
        : ArrayBuilder(pool), off_(pool), v_(pool) {}
    BaseBinaryBuilder(const std::shared_ptr<DataType>&, MemoryPool* pool)
        : BaseBinaryBuilder(pool) {}
    Status Append(const uint8_t* v, offset_type n) {
        ARROW_RETURN_NOT_OK(nulls_.Append(true));
        ARROW_RETURN_NOT_OK(off_.Append(static_cast<offset_type>(v_.length())));
        return v_.Append(v, n);
    }
    Status Append(const char* v, offset_type n) {
        return Append(reinterpret_cast<const uint8_t*>(v), n);
    }
    Status Append(std::string_view v) {
        return Append(v.data(), static_cast<offset_type>(v.size()));
    }
    void UnsafeAppend(std::string_view v) {
        (void)Append(v);
    }
    Status AppendValues(const std::vector<std::string>& v, const uint8_t* valid = nullptr) {
        for (size_t i = 0; i < v.size(); i++) {
            ARROW_RETURN_NOT_OK(valid && !valid[i] ? AppendNull() : Append(v[i]));
        }
        return Status::OK();
    }
    Status AppendNull() override {
        ARROW_RETURN_NOT_OK(nulls_.Append(false));
        return off_.Append(static_cast<offset_type>(v_.length()));
    }
    Status AppendEmptyValue() override {
        return Append(std::string_view());
    }
    Status ReserveData(int64_t n) {
        return v_.Reserve(n);
    }
    std::string_view GetView(int64_t i) const {
        int64_t b = off_.data()[i], e = i + 1 < length() ? off_.data()[i + 1] : v_.length();
        return {reinterpret_cast<const char*>(v_.data()) + b, static_cast<size_t>(e - b)};
    }
    int64_t value_data_length() const {
        return v_.length();
    }
    void Reset() override {
        ArrayBuilder::Reset();
        off_.Reset();
        v_.Reset();
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        int64_t n = length(), nc;
        std::shared_ptr<Buffer> nb, ob, vb;
        ARROW_RETURN_NOT_OK(off_.Append(static_cast<offset_type>(v_.length())));
        ARROW_RETURN_NOT_OK(NullBuffer(&nb, &nc));
        ARROW_RETURN_NOT_OK(off_.Finish(&ob));
        ARROW_RETURN_NOT_OK(v_.Finish(&vb));
        *out = ArrayData::Make(type(), n, std::vector<std::shared_ptr<Buffer>>{nb, ob, vb}, nc);
        return Status::OK();
    }

 private:
    TypedBufferBuilder<offset_type> off_;
    BufferBuilder v_;
};
#define MINI_BIN_BUILDER(CLASS, BASE, ARRAY, TYPE, FACTORY)         \
    class CLASS : public BASE {                                     \
     public:                                                        \
        using TypeClass = TYPE;                                     \
        explicit CLASS(MemoryPool* pool = default_memory_pool())    \
            : BASE(pool) {}                                         \
        CLASS(const std::shared_ptr<DataType>&, MemoryPool* pool)   \
            : BASE(pool) {}                                         \
        std::shared_ptr<DataType> type() const override {           \
            return FACTORY();                                       \
        }                                                           \
        MINI_TYPED_FINISH(ARRAY)                                    \
    };
MINI_BIN_BUILDER(BinaryBuilder, BaseBinaryBuilder<BinaryType>, BinaryArray, BinaryType, binary)
MINI_BIN_BUILDER(StringBuilder, BinaryBuilder, StringArray, StringType, utf8)
MINI_BIN_BUILDER(LargeBinaryBuilder, BaseBinaryBuilder<LargeBinaryType>, LargeBinaryArray,
                 LargeBinaryType, large_binary)
MINI_BIN_BUILDER(LargeStringBuilder, LargeBinaryBuilder, LargeStringArray, LargeStringType,
                 large_utf8)
#undef MINI_BIN_BUILDER

class FixedSizeBinaryBuilder : public ArrayBuilder {
 public:
    FixedSizeBinaryBuilder(const std::shared_ptr<DataType>& t,
                           MemoryPool* pool = default_memory_pool())
        : ArrayBuilder(pool),
          t_(t),
          w_(static_cast<const FixedSizeBinaryType&>(*t).byte_width()),
          v_(pool) {}
    Status Append(const uint8_t* v) {
        ARROW_RETURN_NOT_OK(nulls_.Append(true));
        return v_.Append(v, w_);
    }
    Status Append(std::string_view v) {
        return Append(reinterpret_cast<const uint8_t*>(v.data()));
    }
    Status AppendNull() override {
        ARROW_RETURN_NOT_OK(nulls_.Append(false));
        return v_.Append(w_, static_cast<uint8_t>(0));
    }
    Status AppendEmptyValue() override {
        ARROW_RETURN_NOT_OK(nulls_.Append(true));
        return v_.Append(w_, static_cast<uint8_t>(0));
    }
    void Reset() override {
        ArrayBuilder::Reset();
        v_.Reset();
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        int64_t n = length(), nc;
        std::shared_ptr<Buffer> nb, vb;
        ARROW_RETURN_NOT_OK(NullBuffer(&nb, &nc));
        ARROW_RETURN_NOT_OK(v_.Finish(&vb));
        *out = ArrayData::Make(t_, n, std::vector<std::shared_ptr<Buffer>>{nb, vb}, nc);
        return Status::OK();
    }
    std::shared_ptr<DataType> type() const override {
        return t_;
    }

 protected:
    std::shared_ptr<DataType> t_;
    int32_t w_;
    BufferBuilder v_;
};
class Decimal128Builder : public FixedSizeBinaryBuilder {
 public:
    using TypeClass = Decimal128Type;
    using ValueType = Decimal128;
    using FixedSizeBinaryBuilder::Append;
    using FixedSizeBinaryBuilder::FixedSizeBinaryBuilder;
    Status Append(Decimal128 v) {
        uint8_t b[16];
        v.ToBytes(b);
        return FixedSizeBinaryBuilder::Append(b);
    }
    void UnsafeAppend(Decimal128 v) {
        (void)Append(v);
    }
    MINI_TYPED_FINISH(Decimal128Array)
};
using DecimalBuilder = Decimal128Builder;

class ListBuilder : public ArrayBuilder {
 public:
    using TypeClass = ListType;
    ListBuilder(MemoryPool* pool, std::shared_ptr<ArrayBuilder> values,
                const std::shared_ptr<DataType>& t)
        : ArrayBuilder(pool), t_(t), off_(pool) {
        children_ = {std::move(values)};
    }
    ListBuilder(MemoryPool* pool, std::shared_ptr<ArrayBuilder> values)
        : ListBuilder(pool, values, list(values->type())) {}
    ArrayBuilder* value_builder() const {
        return children_[0].get();
    }
    virtual Status Append(bool valid = true) {
        ARROW_RETURN_NOT_OK(nulls_.Append(valid));
        return off_.Append(static_cast<int32_t>(children_[0]->length()));
    }
    Status Append(bool valid, int64_t) {
        return Append(valid);
    }
    Status AppendNull() override {
        return Append(false);
    }
    Status AppendEmptyValue() override {
        return Append(true);
    }
    void Reset() override {
        ArrayBuilder::Reset();
        off_.Reset();
        children_[0]->Reset();
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        int64_t n = length(), nc;
        std::shared_ptr<Buffer> nb, ob;
        ARROW_RETURN_NOT_OK(off_.Append(static_cast<int32_t>(children_[0]->length())));
        ARROW_RETURN_NOT_OK(NullBuffer(&nb, &nc));
        ARROW_RETURN_NOT_OK(off_.Finish(&ob));
        std::shared_ptr<ArrayData> c;
        ARROW_RETURN_NOT_OK(children_[0]->FinishInternal(&c));
        *out = ArrayData::Make(t_, n, std::vector<std::shared_ptr<Buffer>>{nb, ob},
                               ArrayDataVector{c}, nc);
        return Status::OK();
    }
    std::shared_ptr<DataType> type() const override {
        return t_;
    }
    MINI_TYPED_FINISH(ListArray)

 protected:
    std::shared_ptr<DataType> t_;
    TypedBufferBuilder<int32_t> off_;
};
class StructBuilder : public ArrayBuilder {
 public:
    using TypeClass = StructType;
    StructBuilder(const std::shared_ptr<DataType>& t, MemoryPool* pool,
                  std::vector<std::shared_ptr<ArrayBuilder>> fields)
        : ArrayBuilder(pool), t_(t) {
        children_ = std::move(fields);
    }
    ArrayBuilder* field_builder(int i) const {
        return children_[i].get();
    }
    int num_fields() const {
        return static_cast<int>(children_.size());
    }
    Status Append(bool valid = true) {
        return nulls_.Append(valid);
    }
    Status AppendValues(int64_t n, const uint8_t* valid) {
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(Append(!valid || valid[i]));
        return Status::OK();
    }
    Status AppendNull() override {
        for (auto& c : children_) ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
        return Append(false);
    }
    Status AppendEmptyValue() override {
        for (auto& c : children_) ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
        return Append(true);
    }
    Status Resize(int64_t n) override {
        return ArrayBuilder::Resize(n);
    }
    void Reset() override {
        ArrayBuilder::Reset();
        for (auto& c : children_) c->Reset();
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        int64_t n = length(), nc;
        std::shared_ptr<Buffer> nb;
        ARROW_RETURN_NOT_OK(NullBuffer(&nb, &nc));
        ArrayDataVector cs(children_.size());
        for (size_t i = 0; i < cs.size(); i++) {
            if (length() == 0) ARROW_RETURN_NOT_OK(children_[i]->Resize(0));
            ARROW_RETURN_NOT_OK(children_[i]->FinishInternal(&cs[i]));
        }
        *out = ArrayData::Make(t_, n, std::vector<std::shared_ptr<Buffer>>{nb}, cs, nc);
        return Status::OK();
    }
    std::shared_ptr<DataType> type() const override {
        return t_;
    }
    MINI_TYPED_FINISH(StructArray)

 private:
    std::shared_ptr<DataType> t_;
};
class MapBuilder : public ArrayBuilder {
 public:
    using TypeClass = MapType;
    MapBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& k,
               const std::shared_ptr<ArrayBuilder>& v, const std::shared_ptr<DataType>& t);
    MapBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& k,
               const std::shared_ptr<ArrayBuilder>& v, bool sorted = false)
        : MapBuilder(pool, k, v, map(k->type(), v->type(), sorted)) {}
    MapBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& entries,
               const std::shared_ptr<DataType>& t);
    ArrayBuilder* key_builder() const {
        return k_.get();
    }
    ArrayBuilder* item_builder() const {
        return v_.get();
    }
    ArrayBuilder* value_builder() const {
        return list_->value_builder();
    }
    int64_t length() const override {
        return list_->length();
    }
    Status Append() {
        ARROW_RETURN_NOT_OK(Sync());
        return list_->Append();
    }
    Status AppendNull() override {
        ARROW_RETURN_NOT_OK(Sync());
        return list_->AppendNull();
    }
    Status AppendEmptyValue() override {
        return Append();
    }
    void Reset() override {
        list_->Reset();
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;
    std::shared_ptr<DataType> type() const override {
        return t_;
    }
    MINI_TYPED_FINISH(MapArray)

 private:
    Status Sync();
    std::shared_ptr<DataType> t_;
    std::shared_ptr<ArrayBuilder> k_, v_;
    std::shared_ptr<ListBuilder> list_;
};
// Dictionary encoding of strings, 32-bit indices.
class StringDictionaryBuilder : public ArrayBuilder {
 public:
    explicit StringDictionaryBuilder(MemoryPool* pool = default_memory_pool())
        : ArrayBuilder(pool), idx_(pool), dict_(pool) {}
    Status Append(std::string_view v) {
        auto [it, fresh] = seen_.emplace(std::string(v), static_cast<int32_t>(seen_.size()));
        if (fresh) ARROW_RETURN_NOT_OK(dict_.Append(v));
        ARROW_RETURN_NOT_OK(nulls_.Append(true));
        return idx_.Append(it->second);
    }
    Status AppendNull() override {
        ARROW_RETURN_NOT_OK(nulls_.Append(false));
        return idx_.AppendNull();
    }
    Status AppendEmptyValue() override {
        return Append("");
    }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;
    std::shared_ptr<DataType> type() const override {
        return arrow::dictionary(int32(), utf8());
    }
    MINI_TYPED_FINISH(DictionaryArray)

 private:
    Int32Builder idx_;
    StringBuilder dict_;
    std::map<std::string, int32_t> seen_;
};
Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& t,
                   std::unique_ptr<ArrayBuilder>* out);
inline Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t,
                                                         MemoryPool* pool = default_memory_pool()) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, t, &b));
    return b;
}

// ---------------------------------------------------------------- traits
template <typename T>
struct TypeTraits {};
template <typename T>
struct CTypeTraits {};
#define MINI_TRAITS(T, C, NAME, FACTORY)                     \
    template <>                                              \
    struct TypeTraits<T> {                                   \
        using ArrayType = NAME##Array;                       \
        using BuilderType = NAME##Builder;                   \
        using ScalarType = NAME##Scalar;                     \
        using CType = C;                                     \
        static constexpr bool is_parameter_free = true;      \
        static std::shared_ptr<DataType> type_singleton() {  \
            return FACTORY();                                \
        }                                                    \
    };
MINI_TRAITS(BooleanType, bool, Boolean, boolean)
MINI_TRAITS(Int8Type, int8_t, Int8, int8)
MINI_TRAITS(UInt8Type, uint8_t, UInt8, uint8)
MINI_TRAITS(Int16Type, int16_t, Int16, int16)
MINI_TRAITS(UInt16Type, uint16_t, UInt16, uint16)
MINI_TRAITS(Int32Type, int32_t, Int32, int32)
MINI_TRAITS(UInt32Type, uint32_t, UInt32, uint32)
MINI_TRAITS(Int64Type, int64_t, Int64, int64)
MINI_TRAITS(UInt64Type, uint64_t, UInt64, uint64)
MINI_TRAITS(FloatType, float, Float, float32)
MINI_TRAITS(DoubleType, double, Double, float64)
MINI_TRAITS(Date32Type, int32_t, Date32, date32)
MINI_TRAITS(StringType, std::string, String, utf8)
MINI_TRAITS(BinaryType, std::string, Binary, binary)
MINI_TRAITS(LargeStringType, std::string, LargeString, large_utf8)
MINI_TRAITS(LargeBinaryType, std::string, LargeBinary, large_binary)
#undef MINI_TRAITS
template <>
struct TypeTraits<TimestampType> {
    using ArrayType = TimestampArray;
    using BuilderType = TimestampBuilder;
    using ScalarType = TimestampScalar;
    using CType = int64_t;
    static constexpr bool is_parameter_free = false;
};
template <>
struct TypeTraits<Decimal128Type> {
    using ArrayType = Decimal128Array;
    using BuilderType = Decimal128Builder;
    using ScalarType = Decimal128Scalar;
    using CType = Decimal128;
    static constexpr bool is_parameter_free = false;
};
#define MINI_CTRAITS(C, T)                            \
    template <>                                       \
    struct CTypeTraits<C> : public TypeTraits<T> {    \
        using ArrowType = T;                          \
    };
MINI_CTRAITS(bool, BooleanType)
MINI_CTRAITS(int8_t, Int8Type)
MINI_CTRAITS(int16_t, Int16Type)
MINI_CTRAITS(int32_t, Int32Type)
MINI_CTRAITS(int64_t, Int64Type)
MINI_CTRAITS(uint8_t, UInt8Type)
MINI_CTRAITS(uint16_t, UInt16Type)
MINI_CTRAITS(uint32_t, UInt32Type)
MINI_CTRAITS(uint64_t, UInt64Type)
MINI_CTRAITS(float, FloatType)
MINI_CTRAITS(double, DoubleType)
MINI_CTRAITS(std::string, StringType)
#undef MINI_CTRAITS
template <typename T>
using is_number_type =
    std::bool_constant<std::is_same_v<T, Int8Type> || std::is_same_v<T, Int16Type> ||
                       std::is_same_v<T, Int32Type> || std::is_same_v<T, Int64Type> ||
                       std::is_same_v<T, UInt8Type> || std::is_same_v<T, UInt16Type> ||
                       std::is_same_v<T, UInt32Type> || std::is_same_v<T, UInt64Type> ||
                       std::is_same_v<T, FloatType> || std::is_same_v<T, DoubleType>>;

template <typename T, typename... A>
std::shared_ptr<Scalar> MakeScalar(T v) {
    return std::make_shared<typename CTypeTraits<T>::ScalarType>(v);
}

// ---------------------------------------------------------------- compute
namespace compute {
struct ExecContext {
    explicit ExecContext(MemoryPool* p = default_memory_pool()) : pool(p) {}
    MemoryPool* memory_pool() const {
        return pool;
    }
    MemoryPool* pool;
};
struct CastOptions {
    explicit CastOptions(bool safe = true)
        : allow_int_overflow(!safe),
          allow_time_truncate(!safe),
          allow_time_overflow(!safe),
          allow_decimal_truncate(!safe),
          allow_float_truncate(!safe),
          allow_invalid_utf8(!safe) {}
    static CastOptions Safe(TypeHolder t = {}) {
        CastOptions o(true);
        o.to_type = t;
        return o;
    }
    static CastOptions Unsafe(TypeHolder t = {}) {
        CastOptions o(false);
        o.to_type = t;
        return o;
    }
    TypeHolder to_type;
    bool allow_int_overflow, allow_time_truncate, allow_time_overflow, allow_decimal_truncate,
        allow_float_truncate, allow_invalid_utf8;
};
bool CanCast(const DataType& from, const DataType& to);
Result<std::shared_ptr<Array>> Cast(const Array& a, const TypeHolder& t,
                                    const CastOptions& o = CastOptions::Safe(),
                                    ExecContext* ctx = nullptr);
Result<Datum> Cast(const Datum& a, const TypeHolder& t, const CastOptions& o = CastOptions::Safe(),
                   ExecContext* ctx = nullptr);
enum class SortOrder { Ascending, Descending };
enum class NullPlacement { AtStart, AtEnd };
struct SortKey {
    explicit SortKey(std::string n, SortOrder o = SortOrder::Ascending)
        : target(std::move(n)), order(o) {}
    std::string target;
    SortOrder order;
};
struct SortOptions {
    explicit SortOptions(std::vector<SortKey> k = {}, NullPlacement p = NullPlacement::AtEnd)
        : sort_keys(std::move(k)), null_placement(p) {}
    std::vector<SortKey> sort_keys;
    NullPlacement null_placement;
};
Result<std::shared_ptr<Array>> SortIndices(const Datum& d, const SortOptions& o,
                                           ExecContext* ctx = nullptr);
Result<Datum> Take(const Datum& v, const Datum& idx);
struct AssumeTimezoneOptions {
    enum Ambiguous { AMBIGUOUS_RAISE, AMBIGUOUS_EARLIEST, AMBIGUOUS_LATEST };
    explicit AssumeTimezoneOptions(std::string tz) : timezone(std::move(tz)) {}
    std::string timezone;
};
Result<Datum> AssumeTimezone(const Datum& v, const AssumeTimezoneOptions& o,
                             ExecContext* ctx = nullptr);
Result<Datum> LocalTimestamp(const Datum& v, ExecContext* ctx = nullptr);
}  // namespace compute

struct PrettyPrintOptions {
    static PrettyPrintOptions Defaults() {
        return {};
    }
    int window = 10, container_window = 2;
};
inline Status PrettyPrint(const ChunkedArray& a, const PrettyPrintOptions&, std::string* out) {
    *out = a.ToString();
    return Status::OK();
}
inline Status PrettyPrint(const Array& a, const PrettyPrintOptions&, std::string* out) {
    *out = a.ToString();
    return Status::OK();
}
inline Status PrettyPrint(const Array& a, const PrettyPrintOptions&, std::ostream* out) {
    *out << a.ToString();
    return Status::OK();
}
inline Status PrettyPrint(const Array& a, int, std::ostream* out) {
    *out << a.ToString();
    return Status::OK();
}

namespace internal {
template <typename T>
std::vector<T> Iota(T start, T stop) {
    std::vector<T> r;
    for (T i = start; i < stop; i++) r.push_back(i);
    return r;
}
template <typename T>
std::vector<T> Iota(T n) {
    return Iota<T>(0, n);
}
inline bool StringToFloat(const char* s, size_t n, char, float* out) {
    std::string t(s, n);
    char* e = nullptr;
    if (n == 0 || isspace(static_cast<unsigned char>(t[0]))) return false;
    *out = strtof(t.c_str(), &e);
    return *e == 0;
}
inline bool StringToFloat(const char* s, size_t n, char, double* out) {
    std::string t(s, n);
    char* e = nullptr;
    if (n == 0 || isspace(static_cast<unsigned char>(t[0]))) return false;
    *out = strtod(t.c_str(), &e);
    return *e == 0;
}
uint32_t crc32(uint32_t prev, const void* data, size_t len);
}  // namespace internal

namespace ipc::internal::json {
Result<std::shared_ptr<Array>> ArrayFromJSON(const std::shared_ptr<DataType>& t,
                                             const std::string& json);
Result<std::shared_ptr<Array>> ArrayFromJSON(const std::shared_ptr<DataType>& t,
                                             std::string_view json);
Result<std::shared_ptr<Array>> ArrayFromJSON(const std::shared_ptr<DataType>& t, const char* json);
Status ChunkedArrayFromJSON(const std::shared_ptr<DataType>& t,
                            const std::vector<std::string>& json,
                            std::shared_ptr<ChunkedArray>* out);
}  // namespace ipc::internal::json

}  // namespace arrow

namespace arrow_vendored::date {
struct time_zone {
    std::string n;
    const std::string& name() const {
        return n;
    }
};
const time_zone* current_zone();
}  // namespace arrow_vendored::date

// ---------------------------------------------------------------- C data interface
#ifndef ARROW_C_DATA_INTERFACE
#define ARROW_C_DATA_INTERFACE
#define ARROW_FLAG_DICTIONARY_ORDERED 1
#define ARROW_FLAG_NULLABLE 2
#define ARROW_FLAG_MAP_KEYS_SORTED 4
extern "C" {
struct ArrowSchema {
    const char* format;
    const char* name;
    const char* metadata;
    int64_t flags;
    int64_t n_children;
    struct ArrowSchema** children;
    struct ArrowSchema* dictionary;
    void (*release)(struct ArrowSchema*);
    void* private_data;
};
struct ArrowArray {
    int64_t length;
    int64_t null_count;
    int64_t offset;
    int64_t n_buffers;
    int64_t n_children;
    const void** buffers;
    struct ArrowArray** children;
    struct ArrowArray* dictionary;
    void (*release)(struct ArrowArray*);
    void* private_data;
};
}
#endif
inline int ArrowSchemaIsReleased(const struct ArrowSchema* s) {
    return s->release == nullptr;
}
inline void ArrowSchemaMarkReleased(struct ArrowSchema* s) {
    s->release = nullptr;
}
inline void ArrowSchemaMove(struct ArrowSchema* src, struct ArrowSchema* dst) {
    memcpy(dst, src, sizeof(ArrowSchema));
    ArrowSchemaMarkReleased(src);
}
inline void ArrowSchemaRelease(struct ArrowSchema* s) {
    if (!ArrowSchemaIsReleased(s)) {
        s->release(s);
        if (!ArrowSchemaIsReleased(s)) std::abort();
    }
}
inline int ArrowArrayIsReleased(const struct ArrowArray* a) {
    return a->release == nullptr;
}
inline void ArrowArrayMarkReleased(struct ArrowArray* a) {
    a->release = nullptr;
}
inline void ArrowArrayMove(struct ArrowArray* src, struct ArrowArray* dst) {
    memcpy(dst, src, sizeof(ArrowArray));
    ArrowArrayMarkReleased(src);
}
inline void ArrowArrayRelease(struct ArrowArray* a) {
    if (!ArrowArrayIsReleased(a)) {
        a->release(a);
        if (!ArrowArrayIsReleased(a)) std::abort();
    }
}

namespace arrow {
Status ExportType(const DataType& t, struct ArrowSchema* out);
Status ExportField(const Field& f, struct ArrowSchema* out);
Status ExportSchema(const Schema& s, struct ArrowSchema* out);
Status ExportArray(const Array& a, struct ArrowArray* out, struct ArrowSchema* out_schema = nullptr);
Status ExportRecordBatch(const RecordBatch& b, struct ArrowArray* out,
                         struct ArrowSchema* out_schema = nullptr);
Result<std::shared_ptr<DataType>> ImportType(struct ArrowSchema* s);
Result<std::shared_ptr<Field>> ImportField(struct ArrowSchema* s);
Result<std::shared_ptr<Schema>> ImportSchema(struct ArrowSchema* s);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray* a, std::shared_ptr<DataType> t);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray* a, struct ArrowSchema* s);
::arrow::Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(struct ArrowArray* a,
                                                       std::shared_ptr<Schema> s);
::arrow::Result<std::shared_ptr<RecordBatch>> ImportRecordBatch(struct ArrowArray* a, struct ArrowSchema* s);
}  // namespace arrow
