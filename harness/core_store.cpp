// C14: a file written whole is there whole or not at all, whatever fails on the way.
#include "memfs.h"
#include "paimon/common/factories/io_hook.h"
#include "paimon/common/utils/path_util.h"
#include "paimon/common/utils/stream_utils.h"
#include "paimon/fs/file_system.h"
#include "paimon/memory/memory_pool.h"
#include "pbt.h"

using namespace paimon;  // NOLINT
using pbt::Case;

namespace {
std::string Data(Case& c) {
    switch (c.Weighted({1, 5, 1})) {
        case 0: return "";
        case 1: return c.Bytes(c.Int(1, 40));
        default: return std::string(c.Int(4000, 9000), static_cast<char>('a' + c.Draw(25)));
    }
}
struct Faults {
    int64_t at = -1;     // the operation that fails
    bool after = false;  // having taken effect
    bool forever = false;
    int64_t seen = 0, hit = 0;
    memfs::Op op{};
};
void Arm(Case& c, Faults* f, int64_t upto) {
    f->at = c.Int(0, upto);
    f->after = c.Bool();
    f->forever = c.Chance(1, 3);
    memfs::Store::Get().SetHook([f](const memfs::Event& e) {
        int64_t k = f->seen++;
        if (k == f->at || (f->forever && k > f->at)) {
            if (f->hit++ == 0) f->op = e.op;
            return f->after && k == f->at ? memfs::Verdict::kFailAfter : memfs::Verdict::kFail;
        }
        return memfs::Verdict::kGo;
    });
}
struct Fresh {
    Fresh() { memfs::Store::Get().Reset(); }
    ~Fresh() {
        memfs::Store::Get().ClearHook();
        memfs::Store::Get().Reset();
    }
};
}  // namespace

FACET(atomic, 4) {
    Fresh fresh;
    auto& store = memfs::Store::Get();
    auto fs = memfs::New("a");
    std::string path = c.PickOf<const char*>({"/t/f", "/t/snapshot/snapshot-1", "/t//g", "mem:/t/h"});
    std::string data = Data(c), older = Data(c);
    bool there = c.Chance(1, 4);
    std::string other = "/t/other";
    store.Put(other, "kept");
    if (there) store.Put(path, older);
    auto before = store.Files("/");
    Faults f;
    bool faulty = c.Chance(4, 5);
    if (faulty) Arm(c, &f, 8);
    Status s = fs->AtomicStore(path, data);
    store.ClearHook();
    c.NonTrivial(f.hit > 0);
    c.Log() << path << " " << data.size() << " fault at " << f.at << (f.after ? " after" : "") << (f.forever ? " on" : "") << ": " << s.ToString();
    UNWRAP(std::string normal, PathUtil::NormalizePath(path), "normal");
    REQUIRE(store.Content(other) == "kept", "other", "");
    if (there) {
        REQUIRE(!s.ok(), "replaced", "");
        REQUIRE(store.Content(path) == older, "replaced-content", "");
    } else if (s.ok()) {
        REQUIRE(store.Has(path) && store.Content(path) == data, "content", store.Has(path));
    } else if (store.Has(path)) {
        // Only if the store said the move failed after making it.
        REQUIRE(store.Content(path) == data, "partial", store.Content(path).size());
        REQUIRE(f.hit && f.op == memfs::Op::kRename && f.after, "present-after-error", s.ToString());
    }
    if (f.hit == 0) REQUIRE(s.ok() == !there, "no-fault", s.ToString());
    if (f.hit && !s.ok()) c.Label("failed");
    // Nothing is left next to it, unless removing it is what failed.
    if (!f.forever && !(f.hit && f.op == memfs::Op::kDelete)) {
        for (auto& p : store.Files("/")) {
            bool known = p == other || (store.Has(path) && store.Content(path) == store.Content(p) && p.find(".tmp") == std::string::npos);
            REQUIRE(known || p.find(".tmp") == std::string::npos, "left", p << " " << s.ToString());
        }
    }
}

FACET(whole, 3) {
    Fresh fresh;
    auto& store = memfs::Store::Get();
    auto fs = memfs::New("a");
    std::string path = "/t/f";
    std::string data = Data(c), older = Data(c);
    bool there = c.Bool(), overwrite = c.Bool();
    if (there) store.Put(path, older);
    Faults f;
    if (c.Chance(3, 4)) Arm(c, &f, 5);
    Status s = fs->WriteFile(path, data, overwrite);
    store.ClearHook();
    c.NonTrivial(f.hit > 0 || there);
    c.Log() << "write " << data.size() << (there ? " there" : "") << (overwrite ? " over" : "") << " fault at " << f.at << (f.after ? " after" : "") << ": " << s.ToString();
    REQUIRE(!(s.ok() && f.hit), "write-fault-lost", "operation " << static_cast<int>(f.op));
    if (there && !overwrite) {
        REQUIRE(!s.ok() && store.Content(path) == older, "write-over", "");
    } else {
        if (!f.hit) REQUIRE_OK(s, "write");
        if (s.ok()) REQUIRE(store.Content(path) == data, "write-content", store.Content(path).size());
    }
    if (!store.Has(path)) {
        std::string got;
        REQUIRE(!fs->ReadFile(path, &got).ok(), "read-missing", "");
        return;
    }
    std::string now = store.Content(path), got = "x";
    Faults g;
    if (c.Bool()) Arm(c, &g, 4);
    int64_t how = c.Draw(2);
    Status r;
    if (how == 0) {
        r = fs->ReadFile(path, &got);
    } else {
        auto in = fs->Open(path);
        r = in.status();
        if (in.ok()) {
            auto pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
            auto b = how == 1 ? StreamUtils::ReadFully(std::move(in).value(), pool) : StreamUtils::ReadAsyncFully(std::move(in).value(), pool);
            r = b.status();
            if (b.ok()) got.assign(b.value()->data(), b.value()->size());
        }
    }
    store.ClearHook();
    c.Log() << "; read " << how << " fault at " << g.at << ": " << r.ToString();
    if (!g.hit) REQUIRE_OK(r, "read");
    if (r.ok()) REQUIRE(got == now, "read-content", got.size() << " want " << now.size());
    if (g.hit && (g.op == memfs::Op::kOpen || g.op == memfs::Op::kRead)) REQUIRE(!r.ok(), "read-fault-lost", how);
}

FACET(chunks, 1) {
    // Larger than a chunk of the asynchronous reader.
    Fresh fresh;
    auto& store = memfs::Store::Get();
    auto fs = memfs::New("a");
    int64_t size = (c.Int(0, 2) << 20) + c.Int(-2, 2);
    if (size < 0) size = 0;
    std::string data(size, 0);
    uint64_t x = c.Sub().Next() | 1;
    for (auto& ch : data) ch = static_cast<char>((x = x * 6364136223846793005ULL + 1442695040888963407ULL) >> 56);
    store.Put("/t/f", data);
    c.NonTrivial(size > 1 << 20);
    c.Log() << size;
    auto pool = std::shared_ptr<MemoryPool>(GetMemoryPool());
    bool fault = c.Bool();
    int64_t at = c.Int(0, 2), seen = 0, hit = 0;
    UNWRAP(auto in, fs->Open("/t/f"), "open");
    if (c.Bool() && size > 3) REQUIRE_OK(in->Seek(3, FS_SEEK_SET), "seek");
    if (fault) store.SetHook([&](const memfs::Event& e) {
        if (e.op == memfs::Op::kRead && seen++ == at) {
            hit++;
            return memfs::Verdict::kFail;
        }
        return memfs::Verdict::kGo;
    });
    auto b = StreamUtils::ReadAsyncFully(std::move(in), pool);
    store.ClearHook();
    REQUIRE(b.ok() == (hit == 0), "chunks", b.status().ToString());
    if (b.ok()) REQUIRE(std::string(b.value()->data(), b.value()->size()) == data, "chunks-content", size);
}
