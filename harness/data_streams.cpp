// Typed writers and readers: what one writes the other reads back, in either byte order, and a
// cut or failing stream is reported rather than read as something else.
#include <cstring>
#include <memory>
#include <variant>

#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/fs/file_system.h"
#include "paimon/io/buffered_input_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/common/io/data_output_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;

namespace {
enum Kind { kBool, kChar, kI16, kU16, kI32, kI64, kString, kBytes, kRaw, kOrder };
const char* kNames[] = {"bool", "char", "i16", "u16", "i32", "i64", "string", "bytes", "raw", "order"};

struct Op {
    Kind kind;
    int64_t num = 0;
    std::string text;
};

// Keeps what is written; accepts at most `budget` bytes in total, then writes short or fails.
class Sink : public OutputStream {
 public:
    explicit Sink(int64_t budget = INT64_MAX, bool fail = false) : budget_(budget), fail_(fail) {}
    Result<int32_t> Write(const char* buffer, uint32_t size) override {
        int64_t room = budget_ - static_cast<int64_t>(data.size());
        if (room < static_cast<int64_t>(size)) {
            if (fail_) {
                return Status::IOError("sink is full");
            }
            size = static_cast<uint32_t>(std::max<int64_t>(room, 0));
        }
        data.append(buffer, size);
        return static_cast<int32_t>(size);
    }
    Status Flush() override {
        return Status::OK();
    }
    Result<int64_t> GetPos() const override {
        return static_cast<int64_t>(data.size());
    }
    Result<std::string> GetUri() const override {
        return std::string("sink");
    }
    Status Close() override {
        return Status::OK();
    }
    std::string data;

 private:
    int64_t budget_;
    bool fail_;
};

void PutNum(std::string* out, uint64_t v, int width, bool big) {
    for (int i = 0; i < width; i++) {
        int shift = big ? (width - 1 - i) * 8 : i * 8;
        out->push_back(static_cast<char>(v >> shift));
    }
}

std::vector<Op> Program(Case& c, bool long_strings) {
    std::vector<Op> ops;
    int64_t n = c.Len(1, 14);
    for (int64_t i = 0; i < n; i++) {
        Op op;
        op.kind = static_cast<Kind>(c.Weighted({1, 1, 2, 1, 2, 2, 3, 2, 1, 1}));
        switch (op.kind) {
            case kBool:
                op.num = c.Bool();
                break;
            case kOrder:
                op.num = c.Bool();
                break;
            case kString:
                if (long_strings && c.Chance(1, 12)) {
                    op.text = std::string(c.PickOf<int64_t>({255, 256, 32767, 32768, 65534, 65535}),
                                          static_cast<char>('a' + c.Int(0, 25)));
                } else {
                    op.text = c.Bytes(c.Len(0, 40));
                }
                break;
            case kBytes:
            case kRaw:
                op.text = c.Bytes(c.Len(0, 40));
                break;
            default:
                op.num = c.I64();
        }
        ops.push_back(op);
    }
    for (auto& op : ops) {
        c.Log() << kNames[op.kind] << "(" << (op.text.empty() ? std::to_string(op.num)
                                                               : pbt::Hex(op.text.substr(0, 20)))
                << (op.text.size() > 20 ? "..." + std::to_string(op.text.size()) : "") << ") ";
    }
    return ops;
}

std::string Reference(const std::vector<Op>& ops, bool big) {
    std::string out;
    for (auto& op : ops) {
        switch (op.kind) {
            case kBool:
            case kChar:
                PutNum(&out, op.num, 1, big);
                break;
            case kI16:
            case kU16:
                PutNum(&out, op.num, 2, big);
                break;
            case kI32:
                PutNum(&out, op.num, 4, big);
                break;
            case kI64:
                PutNum(&out, op.num, 8, big);
                break;
            case kString:
                PutNum(&out, op.text.size(), 2, big);
                out += op.text;
                break;
            case kBytes:
            case kRaw:
                out += op.text;
                break;
            case kOrder:
                big = op.num != 0;
        }
    }
    return out;
}

ByteOrder Order(bool big) {
    return big ? ByteOrder::PAIMON_BIG_ENDIAN : ByteOrder::PAIMON_LITTLE_ENDIAN;
}

Status WriteOp(DataOutputStream* out, const Op& op) {
    auto pool = GetDefaultPool();
    switch (op.kind) {
        case kBool:
            return out->WriteValue<bool>(op.num != 0);
        case kChar:
            return out->WriteValue<char>(static_cast<char>(op.num));
        case kI16:
            return out->WriteValue<int16_t>(static_cast<int16_t>(op.num));
        case kU16:
            return out->WriteValue<uint16_t>(static_cast<uint16_t>(op.num));
        case kI32:
            return out->WriteValue<int32_t>(static_cast<int32_t>(op.num));
        case kI64:
            return out->WriteValue<int64_t>(op.num);
        case kString:
            return out->WriteString(op.text);
        case kBytes:
        case kRaw:
            return out->WriteBytes(std::make_shared<Bytes>(op.text, pool.get()));
        case kOrder:
            out->SetOrder(Order(op.num != 0));
            return Status::OK();
    }
    return Status::OK();
}

// Reads one item; returns false when the stream reported an error.
bool ReadOp(Case& c, DataInputStream* in, const Op& op, bool check) {
    auto pool = GetDefaultPool();
    auto num = [&](auto r, auto want) {
        if (!r.ok()) {
            return false;
        }
        REQUIRE(!check || r.value() == want, "read-value",
                "read " << static_cast<int64_t>(r.value()) << " written " << static_cast<int64_t>(want));
        return true;
    };
    switch (op.kind) {
        case kBool:
            return num(in->ReadValue<bool>(), op.num != 0);
        case kChar:
            return num(in->ReadValue<char>(), static_cast<char>(op.num));
        case kI16:
            return num(in->ReadValue<int16_t>(), static_cast<int16_t>(op.num));
        case kU16:
            return num(in->ReadValue<uint16_t>(), static_cast<uint16_t>(op.num));
        case kI32:
            return num(in->ReadValue<int32_t>(), static_cast<int32_t>(op.num));
        case kI64:
            return num(in->ReadValue<int64_t>(), op.num);
        case kString: {
            auto r = in->ReadString();
            if (!r.ok()) {
                return false;
            }
            REQUIRE(!check || r.value() == op.text, "read-string",
                    "read " << r.value().size() << " bytes, written " << op.text.size());
            return true;
        }
        case kBytes: {
            Bytes b(op.text.size(), pool.get());
            if (!in->ReadBytes(&b).ok()) {
                return false;
            }
            REQUIRE(!check || std::string(b.data(), b.size()) == op.text, "read-bytes", "");
            return true;
        }
        case kRaw: {
            std::string b(op.text.size(), 'x');
            if (!in->Read(b.data(), b.size()).ok()) {
                return false;
            }
            REQUIRE(!check || b == op.text, "read-raw", "");
            return true;
        }
        case kOrder:
            in->SetOrder(Order(op.num != 0));
            return true;
    }
    return true;
}

std::shared_ptr<InputStream> Source(Case& c, const std::string& data) {
    auto base = std::make_shared<ByteArrayInputStream>(data.data(), data.size());
    if (c.Bool()) {
        return std::make_shared<BufferedInputStream>(
            base, static_cast<int32_t>(c.PickOf<int64_t>({8192, 1, 2, 3, 5, 8, 16})),
            GetDefaultPool().get());
    }
    return base;
}
}  // namespace

FACET(round_trip, 5) {
    auto pool = GetDefaultPool();
    auto ops = Program(c, true);
    bool big = !c.Bool();
    std::string want = Reference(ops, big);
    c.NonTrivial(ops.size() >= 2 && want.size() >= 4);

    auto sink = std::make_shared<Sink>();
    DataOutputStream out(sink);
    if (!big) {
        out.SetOrder(Order(false));
    }
    for (auto& op : ops) {
        REQUIRE_OK(WriteOp(&out, op), "write-failed");
    }
    REQUIRE(sink->data == want, "stream-bytes",
            pbt::Hex(sink->data.substr(0, 80)) << " want " << pbt::Hex(want.substr(0, 80)));

    // the in-memory writer gives the same bytes whatever the size of its pieces
    int32_t piece = static_cast<int32_t>(c.PickOf<int64_t>({65536, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64}));
    MemorySegmentOutputStream mem(piece, pool);
    if (!big) {
        mem.SetOrder(Order(false));
    }
    for (auto& op : ops) {
        switch (op.kind) {
            case kBool:
                mem.WriteValue<bool>(op.num != 0);
                break;
            case kChar:
                mem.WriteValue<char>(static_cast<char>(op.num));
                break;
            case kI16:
                mem.WriteValue<int16_t>(static_cast<int16_t>(op.num));
                break;
            case kU16:
                mem.WriteValue<uint16_t>(static_cast<uint16_t>(op.num));
                break;
            case kI32:
                mem.WriteValue<int32_t>(static_cast<int32_t>(op.num));
                break;
            case kI64:
                mem.WriteValue<int64_t>(op.num);
                break;
            case kString:
                mem.WriteString(op.text);
                break;
            case kBytes:
                mem.WriteBytes(std::make_shared<Bytes>(op.text, pool.get()));
                break;
            case kRaw: {
                if (c.Bool()) {
                    mem.Write(op.text.data(), op.text.size());
                } else {
                    auto padded = std::make_shared<Bytes>("<" + op.text + ">", pool.get());
                    mem.Write(MemorySegment::Wrap(padded), 1, op.text.size());
                }
                break;
            }
            case kOrder:
                mem.SetOrder(Order(op.num != 0));
                break;
        }
    }
    REQUIRE(mem.CurrentSize() == static_cast<int64_t>(want.size()), "memory-size",
            mem.CurrentSize() << " want " << want.size());
    if (!want.empty()) {
        auto b = MemorySegmentUtils::CopyToBytes(mem.Segments(), 0, mem.CurrentSize(), pool.get());
        REQUIRE(std::string(b->data(), b->size()) == want, "memory-bytes",
                pbt::Hex(std::string(b->data(), std::min<size_t>(b->size(), 80))) << " want "
                                                                            << pbt::Hex(want.substr(0, 80)));
    }

    DataInputStream in(Source(c, want));
    UNWRAP(uint64_t length, in.Length(), "length");
    REQUIRE(length == want.size(), "length", length << " want " << want.size());
    if (!big) {
        in.SetOrder(Order(false));
    }
    bool order = big;
    int64_t pos = 0;
    std::vector<std::pair<int64_t, bool>> starts;
    for (auto& op : ops) {
        starts.emplace_back(pos, order);
        REQUIRE(ReadOp(c, &in, op, true), "read-failed", kNames[op.kind] << " at " << pos);
        pos += static_cast<int64_t>(Reference({op}, order).size());
        if (op.kind == kOrder) {
            order = op.num != 0;
        }
        UNWRAP(int64_t at, in.GetPos(), "get-pos");
        REQUIRE(at == pos, "position", at << " want " << pos);
    }
    // go back to any item and read it again
    size_t k = static_cast<size_t>(c.Int(0, static_cast<int64_t>(ops.size()) - 1));
    REQUIRE_OK(in.Seek(starts[k].first), "seek");
    in.SetOrder(Order(starts[k].second));
    REQUIRE(ReadOp(c, &in, ops[k], true), "read-after-seek", k);
}

FACET(cut_short, 3) {
    auto ops = Program(c, false);
    bool big = c.Bool();
    std::string whole = Reference(ops, big);
    if (whole.empty()) {
        throw pbt::Discard{};
    }
    size_t keep = static_cast<size_t>(c.Int(0, static_cast<int64_t>(whole.size()) - 1));
    c.Log() << " keep " << keep << " of " << whole.size();
    // an own allocation of just the kept bytes, so that reading past them is seen
    std::unique_ptr<char[]> part(new char[keep]);
    memcpy(part.get(), whole.data(), keep);
    auto base = std::make_shared<ByteArrayInputStream>(part.get(), keep);
    std::shared_ptr<InputStream> src = base;
    if (c.Bool()) {
        src = std::make_shared<BufferedInputStream>(
            base, static_cast<int32_t>(c.PickOf<int64_t>({8192, 1, 2, 3, 5, 8, 16})),
            GetDefaultPool().get());
    }
    DataInputStream in(src);
    in.SetOrder(Order(big));
    c.NonTrivial(ops.size() >= 2 && keep >= 2);
    size_t done = 0;
    for (auto& op : ops) {
        size_t len = Reference({op}, true).size();
        if (done + len <= keep) {
            REQUIRE(ReadOp(c, &in, op, true), "whole-item-refused", kNames[op.kind] << " at " << done);
            done += len;
            continue;
        }
        REQUIRE(!ReadOp(c, &in, op, true), "cut-item-accepted", kNames[op.kind] << " at " << done);
        return;
    }
    FAIL("unreachable", "");
}

namespace {
// Serves fewer bytes than asked, or fails, at one call.
class Stingy : public ByteArrayInputStream {
 public:
    Stingy(const std::string& s, int64_t at, bool fails) : ByteArrayInputStream(s.data(), s.size()), at_(at), fails_(fails) {}
    Result<int32_t> Read(char* buffer, uint32_t size) override {
        if (at_-- == 0 && size > 0) {
            hit = true;
            if (fails_) {
                return Status::IOError("disk");
            }
            return ByteArrayInputStream::Read(buffer, size - 1);
        }
        return ByteArrayInputStream::Read(buffer, size);
    }
    bool hit = false;

 private:
    int64_t at_;
    bool fails_;
};
}  // namespace

// A source that gives less than was asked for is an error, not a value made of what came.
FACET(short_reads, 2) {
    auto ops = Program(c, false);
    bool big = c.Bool();
    std::string whole = Reference(ops, big);
    auto src = std::make_shared<Stingy>(whole, c.Int(0, 6), c.Bool());
    DataInputStream in(src);
    in.SetOrder(Order(big));
    for (auto& op : ops) {
        bool ok = ReadOp(c, &in, op, true);
        c.NonTrivial(src->hit);
        REQUIRE(ok == !src->hit, "short-read", kNames[op.kind]);
        if (!ok) {
            return;
        }
    }
}

FACET(write_faults, 2) {
    auto ops = Program(c, false);
    bool big = c.Bool();
    std::string whole = Reference(ops, big);
    if (whole.empty()) {
        throw pbt::Discard{};
    }
    int64_t budget = c.Int(0, static_cast<int64_t>(whole.size()) - 1);
    bool fail = c.Bool();
    auto sink = std::make_shared<Sink>(budget, fail);
    DataOutputStream out(sink);
    out.SetOrder(Order(big));
    c.NonTrivial(ops.size() >= 2 && budget >= 1);
    bool reported = false;
    for (auto& op : ops) {
        if (!WriteOp(&out, op).ok()) {
            reported = true;
            break;
        }
    }
    REQUIRE(reported, "lost-write", (fail ? "failing" : "short") << " write after " << budget << " of "
                                                           << whole.size() << " bytes was not reported");
    REQUIRE(whole.compare(0, sink->data.size(), sink->data) == 0, "garbled-prefix", "");
}

FACET(long_string, 1) {
    // longer than the length field can say: refuse, never write something else
    int64_t n = 65536 + c.PickOf<int64_t>({0, 1, 2, 10, 65535, 65536});
    c.NonTrivial();
    auto sink = std::make_shared<Sink>();
    DataOutputStream out(sink);
    REQUIRE(!out.WriteString(std::string(n, 'x')).ok(), "long-string-accepted", n);
}
