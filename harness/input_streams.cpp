// Byte streams stacked on each other behave like one string with a position.
#include <cstring>
#include <memory>

#include "paimon/common/io/offset_input_stream.h"
#include "paimon/fs/file_system.h"
#include "paimon/io/buffered_input_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
// A stream of `length` bytes where byte i is a function of i; reads may fail or come back short
// when told to.
class Virtual : public InputStream {
 public:
    explicit Virtual(uint64_t length) : length_(length) {}
    static char At(uint64_t i) {
        return static_cast<char>((i * 0x9E3779B97F4A7C15ull) >> 40);
    }
    Status Seek(int64_t offset, SeekOrigin origin) override {
        __int128 p = offset;
        p += origin == FS_SEEK_SET ? 0 : origin == FS_SEEK_CUR ? pos_ : static_cast<int64_t>(length_);
        if (p < 0 || p > static_cast<__int128>(length_)) {
            return Status::Invalid("bad seek");
        }
        pos_ = static_cast<int64_t>(p);
        return Status::OK();
    }
    Result<int64_t> GetPos() const override {
        return pos_;
    }
    Result<int32_t> Read(char* buffer, uint32_t size) override {
        if (fail_in == 0) {
            fail_in = -1;
            return Status::IOError("read failed");
        }
        if (fail_in > 0) {
            fail_in--;
        }
        uint64_t n = std::min<uint64_t>(size, length_ - pos_);
        if (short_in == 0) {
            short_in = -1;
            n = n / 2;
        } else if (short_in > 0) {
            short_in--;
        }
        for (uint64_t i = 0; i < n; i++) {
            buffer[i] = At(pos_ + i);
        }
        pos_ += static_cast<int64_t>(n);
        return static_cast<int32_t>(n);
    }
    Result<int32_t> Read(char* buffer, uint32_t size, uint64_t offset) override {
        if (offset > length_) {
            return Status::Invalid("bad offset");
        }
        uint64_t n = std::min<uint64_t>(size, length_ - offset);
        for (uint64_t i = 0; i < n; i++) {
            buffer[i] = At(offset + i);
        }
        return static_cast<int32_t>(n);
    }
    void ReadAsync(char* buffer, uint32_t size, uint64_t offset,
                   std::function<void(Status)>&& callback) override {
        auto r = Read(buffer, size, offset);
        callback(r.ok() ? (r.value() == static_cast<int32_t>(size) ? Status::OK()
                                                                   : Status::Invalid("short"))
                        : r.status());
    }
    Result<std::string> GetUri() const override {
        return std::string("virtual://x");
    }
    Result<uint64_t> Length() const override {
        return length_;
    }
    Status Close() override {
        return Status::OK();
    }
    int64_t fail_in = -1;
    int64_t short_in = -1;

 private:
    uint64_t length_;
    int64_t pos_ = 0;
};

struct Stack {
    std::shared_ptr<InputStream> top;
    int64_t begin = 0;   // where the top begins in the base
    int64_t length = 0;  // how long it is
    bool buffered = false;
    bool top_buffered = false;
    std::string uri = "virtual://x";
};

Stack Wrap(Case& c, Stack s, bool allow_buffer) {
    int64_t layers = c.Len(0, 3);
    for (int64_t i = 0; i < layers; i++) {
        if (allow_buffer && c.Bool()) {
            s.top = std::make_shared<BufferedInputStream>(
                s.top, static_cast<int32_t>(c.PickOf<int64_t>({8192, 1, 2, 3, 4, 7, 16, 64})),
                GetDefaultPool().get());
            s.buffered = s.top_buffered = true;
            c.Log() << "buffered ";
        } else {
            int64_t off, len;
            if (s.length > 1000000 && c.Bool()) {
                // around the 2 GiB and 4 GiB marks
                off = c.PickOf<int64_t>({(1LL << 31) - 5, (1LL << 31) + 3, (1LL << 32) - 3, (1LL << 32) + 9, 1});
                off = std::min(off, s.length);
            } else {
                off = std::min<int64_t>(c.Int(0, 40), s.length);
            }
            bool rest = c.Bool();
            len = rest ? s.length - off : c.Int(0, s.length - off);
            if (!rest && s.length > 1000000 && c.Bool()) {
                len = std::min(s.length - off, c.PickOf<int64_t>({(1LL << 31) + 7, (1LL << 32) + 7, 100}));
            }
            auto r = OffsetInputStream::Create(s.top, rest && c.Bool() ? -1 : len, off);
            REQUIRE(r.ok(), "create", r.status().ToString());
            s.top = std::move(r).value();
            s.begin += off;
            s.length = len;
            s.top_buffered = false;
            c.Log() << "offset(" << off << "," << len << ") ";
        }
    }
    return s;
}

int64_t Target(Case& c, int64_t pos, int64_t length) {
    switch (c.Weighted({4, 1, 1, 2, 1, 1, 1})) {
        case 0:
            return c.Int(0, length);
        case 1:
            return 0;
        case 2:
            return length;
        case 3:
            return std::min(length, pos + c.Int(0, 20));
        case 4:
            return length + c.PickOf<int64_t>({1, 2, 1000, 1LL << 31, 1LL << 32});
        case 5:
            return -c.PickOf<int64_t>({1, 2, 1000, 1LL << 31, 1LL << 32, (1LL << 32) - 3});
        default:
            return c.PickOf<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX - 1});
    }
}

// byte(i) gives the expected byte i of the top stream
template <typename F>
void Exercise(Case& c, Stack& s, Virtual* flaky, F byte) {
    UNWRAP(uint64_t len, s.top->Length(), "length");
    REQUIRE(len == static_cast<uint64_t>(s.length), "length", len << " want " << s.length);
    UNWRAP(int64_t start, s.top->GetPos(), "get-pos");
    REQUIRE(start == 0, "start-position", start);
    int64_t pos = 0;
    bool known = true;  // false after a failed read: the position is then unspecified
    int64_t n = c.Len(1, 14);
    int64_t reads = 0;
    bool positional = !s.buffered;
    for (int64_t step = 0; step < n; step++) {
        switch (c.Weighted({6, 4, 2, 1, 1})) {
            case 0: {
                if (!known) {
                    break;
                }
                int64_t size = c.PickOf<int64_t>({1, 2, 3, 4, 7, 8, 9, 15, 17, 33, 64, 100, 0});
                std::unique_ptr<char[]> buf(new char[size]);
                memset(buf.get(), 0x5a, size);
                auto r = s.top->Read(buf.get(), static_cast<uint32_t>(size));
                c.Log() << "read(" << size << ")@" << pos << "=" << (r.ok() ? r.value() : -1) << " ";
                if (!r.ok()) {
                    REQUIRE(size > s.length - pos || flaky, "read-refused",
                            size << " bytes at " << pos << " of " << s.length << ": "
                                 << r.status().ToString());
                    known = !flaky && !s.buffered;  // nothing was taken from plain streams
                    if (known) {
                        UNWRAP(int64_t at, s.top->GetPos(), "get-pos");
                        REQUIRE(at == pos, "position-after-refused-read", at << " want " << pos);
                    }
                    break;
                }
                int64_t got = r.value();
                REQUIRE(got >= 0 && got <= size && pos + got <= s.length, "read-count",
                        got << " of " << size << " at " << pos << " of " << s.length);
                if (!flaky && size <= s.length - pos) {
                    REQUIRE(got == size, "short-read", got << " of " << size);
                }
                for (int64_t i = 0; i < got; i++) {
                    REQUIRE(buf[i] == byte(pos + i), "read-bytes", "byte " << i << " at " << pos);
                }
                pos += got;
                reads += got > 0;
                UNWRAP(int64_t at, s.top->GetPos(), "get-pos");
                REQUIRE(at == pos, "position-after-read", at << " want " << pos);
                break;
            }
            case 1: {
                SeekOrigin o = c.PickOf<SeekOrigin>({FS_SEEK_SET, FS_SEEK_CUR, FS_SEEK_END});
                if (o == FS_SEEK_CUR && !known) {
                    o = FS_SEEK_SET;
                }
                int64_t to = Target(c, pos, s.length);
                int64_t base = o == FS_SEEK_SET ? 0 : o == FS_SEEK_CUR ? pos : s.length;
                int64_t arg;
                if (to == INT64_MAX || to == INT64_MIN || to == INT64_MAX - 1) {
                    arg = to;
                    if (__builtin_add_overflow(arg, base, &to)) {
                        to = -1;
                    }
                } else {
                    arg = to - base;
                }
                bool valid = to >= 0 && to <= s.length;
                Status st = s.top->Seek(arg, o);
                c.Log() << "seek(" << arg << "," << o << ")=" << st.ok() << " ";
                if (valid) {
                    REQUIRE(st.ok(), "seek-refused", to << " of " << s.length << ": " << st.ToString());
                    pos = to;
                    known = true;
                } else {
                    REQUIRE(!st.ok(), "bad-seek-accepted", arg << " from " << base << " of " << s.length);
                }
                if (known) {
                    UNWRAP(int64_t at, s.top->GetPos(), "get-pos");
                    REQUIRE(at == pos, "position-after-seek", at << " want " << pos);
                }
                break;
            }
            case 2: {
                if (!positional) {
                    break;
                }
                int64_t off = Target(c, pos, s.length);
                int64_t size = c.PickOf<int64_t>({1, 2, 5, 9, 30, 0});
                std::unique_ptr<char[]> buf(new char[size]);
                memset(buf.get(), 0x5a, size);
                bool inside = off >= 0 && off <= s.length && size <= s.length - off;
                bool ok;
                int64_t got = size;
                if (c.Bool()) {
                    auto r = s.top->Read(buf.get(), static_cast<uint32_t>(size), static_cast<uint64_t>(off));
                    ok = r.ok();
                    got = ok ? r.value() : 0;
                } else {
                    int calls = 0;
                    Status seen;
                    s.top->ReadAsync(buf.get(), static_cast<uint32_t>(size), static_cast<uint64_t>(off),
                                     [&](Status st) {
                                         calls++;
                                         seen = st;
                                     });
                    REQUIRE(calls == 1, "callback-count", calls);
                    ok = seen.ok();
                }
                c.Log() << "pread(" << size << "," << off << ")=" << ok << " ";
                if (inside) {
                    REQUIRE(ok && got == size, "pread-refused", size << " at " << off << " of " << s.length);
                    for (int64_t i = 0; i < got; i++) {
                        REQUIRE(buf[i] == byte(off + i), "pread-bytes", "byte " << i << " at " << off);
                    }
                    reads += got > 0;
                } else {
                    REQUIRE(!ok || got < size, "pread-outside", size << " at " << off << " of " << s.length);
                }
                if (known) {
                    UNWRAP(int64_t at, s.top->GetPos(), "get-pos");
                    REQUIRE(at == pos, "position-after-pread", at << " want " << pos);
                }
                break;
            }
            case 3:
                if (flaky) {
                    (c.Bool() ? flaky->fail_in : flaky->short_in) = c.Int(0, 2);
                }
                break;
            default: {
                UNWRAP(uint64_t l, s.top->Length(), "length");
                REQUIRE(l == static_cast<uint64_t>(s.length), "length", l);
            }
        }
    }
    c.NonTrivial(reads >= 1 && n >= 3);
    if (c.Chance(1, 4)) {
        UNWRAP(std::string uri, s.top->GetUri(), "uri");
        REQUIRE(uri == s.uri, "uri", uri);
        if (s.top_buffered) {
            char b = 'x';
            REQUIRE(!s.top->Read(&b, 1, 0).ok(), "buffered-pread", "not supported, yet it answered");
            Status seen;
            int calls = 0;
            s.top->ReadAsync(&b, 1, 0, [&](Status st) {
                calls++;
                seen = st;
            });
            REQUIRE(calls == 1 && !seen.ok() && b == 'x', "buffered-async", calls);
        }
        Status bad = s.top->Seek(0, static_cast<SeekOrigin>(3));
        if (!s.top_buffered && dynamic_cast<Virtual*>(s.top.get()) == nullptr) {
            REQUIRE(!bad.ok(), "bad-origin", "accepted");
        }
        REQUIRE_OK(s.top->Close(), "close");
    }
}
}  // namespace

FACET(in_memory, 5) {
    int64_t n = c.Len(0, 120);
    std::string data = c.Bytes(n);
    std::unique_ptr<char[]> exact(new char[n]);
    memcpy(exact.get(), data.data(), n);
    Stack s;
    auto base = std::make_shared<ByteArrayInputStream>(exact.get(), n);
    s.top = base;
    s.length = n;
    s.uri = "";
    bool offset_only = c.Bool();
    s = Wrap(c, s, !offset_only);
    Exercise(c, s, nullptr, [&](int64_t i) { return data[s.begin + i]; });
}

FACET(huge, 3) {
    Stack s;
    s.length = c.PickOf<int64_t>({(1LL << 31) + 100, (1LL << 32) + 100, (1LL << 33), (1LL << 31) - 1});
    auto base = std::make_shared<Virtual>(s.length);
    s.top = base;
    s = Wrap(c, s, c.Bool());
    Exercise(c, s, nullptr, [&](int64_t i) { return Virtual::At(s.begin + i); });
}

FACET(flaky, 3) {
    Stack s;
    s.length = c.Len(0, 120);
    auto base = std::make_shared<Virtual>(s.length);
    s.top = base;
    s = Wrap(c, s, true);
    Exercise(c, s, base.get(), [&](int64_t i) { return Virtual::At(s.begin + i); });
}

FACET(bad_window, 1) {
    int64_t n = c.Len(0, 50);
    auto base = std::make_shared<Virtual>(n);
    int64_t off = c.PickOf<int64_t>({0, 1, n, n + 1, -1, INT64_MAX, INT64_MIN, n / 2});
    int64_t len = c.PickOf<int64_t>({0, 1, n, n + 1, -1, -2, INT64_MAX, n / 2});
    c.Log() << "length " << n << " window " << off << "+" << len;
    bool valid = off >= 0 && off <= n && (len == -1 || (len >= 0 && len <= n - off));
    auto r = OffsetInputStream::Create(base, len, off);
    c.NonTrivial(!valid || n > 1);
    REQUIRE(!OffsetInputStream::Create(nullptr, 0, 0).ok(), "no-stream", "accepted");
    REQUIRE(r.ok() == valid, "window", (valid ? "valid window refused" : "window outside accepted"));
}
