// B24: a call on a path goes to the file system of its scheme, made once; factories are found by name.
#include <atomic>
#include <thread>

#include "paimon/common/fs/resolving_file_system.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/file_index/file_indexer.h"
#include "paimon/file_index/file_indexer_factory.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/global_index/global_indexer.h"
#include "paimon/global_index/global_indexer_factory.h"
#include "pbt.h"

using namespace paimon;  // NOLINT
using pbt::Case;

namespace {
struct Made {
    std::string identifier, path;
    std::map<std::string, std::string> options;
};
std::vector<Made> g_made;
std::vector<std::string> g_calls;
std::mutex g_mu;
std::string g_refuse;

void Called(const std::string& s) {
    std::lock_guard<std::mutex> l(g_mu);
    g_calls.push_back(s);
}

struct Stat : FileStatus {
    uint64_t GetLen() const override { return 7; }
    bool IsDir() const override { return false; }
    std::string GetPath() const override { return "p"; }
    int64_t GetModificationTime() const override { return 9; }
};

// Remembers what it was asked.
struct Recorder : FileSystem {
    std::string id;
    int number;
    Recorder(std::string i, int n) : id(std::move(i)), number(n) {}
    std::string Me() const { return id + "#" + std::to_string(number) + " "; }
    Status Say(const std::string& what) const {
        Called(Me() + what);
        return Status::IOError(Me() + what);
    }
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override { return Say("open " + p); }
    Result<std::unique_ptr<OutputStream>> Create(const std::string& p, bool o) const override {
        return Say("create " + p + (o ? " over" : ""));
    }
    Status Mkdirs(const std::string& p) const override { return Say("mkdirs " + p); }
    Status Rename(const std::string& a, const std::string& b) const override { return Say("rename " + a + " " + b); }
    Status Delete(const std::string& p, bool r) const override { return Say("delete " + p + (r ? " all" : "")); }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& p) const override { return Say("stat " + p); }
    Status ListDir(const std::string& p, std::vector<std::unique_ptr<BasicFileStatus>>*) const override { return Say("list " + p); }
    Status ListFileStatus(const std::string& p, std::vector<std::unique_ptr<FileStatus>>* out) const override {
        out->push_back(std::make_unique<Stat>());
        Called(Me() + "files " + p);
        return Status::OK();
    }
    Result<bool> Exists(const std::string& p) const override {
        Called(Me() + "exists " + p);
        return p.size() % 2 == 0;
    }
};

template <int N>
struct FsFactory : FileSystemFactory {
    const char* Identifier() const override {
        static const std::string s = "rec" + std::to_string(N);
        return s.c_str();
    }
    Result<std::unique_ptr<FileSystem>> Create(const std::string& path, const std::map<std::string, std::string>& options) const override {
        std::lock_guard<std::mutex> l(g_mu);
        if (g_refuse == Identifier()) return Status::Invalid("not now");
        g_made.push_back({Identifier(), path, options});
        return std::make_unique<Recorder>(Identifier(), static_cast<int>(g_made.size()));
    }
};

struct Indexer : FileIndexer {
    std::map<std::string, std::string> options;
    Result<std::shared_ptr<FileIndexReader>> CreateReader(::ArrowSchema*, int32_t, int32_t, const std::shared_ptr<InputStream>&,
                                                          const std::shared_ptr<MemoryPool>&) const override {
        return Status::Invalid("");
    }
    Result<std::shared_ptr<FileIndexWriter>> CreateWriter(::ArrowSchema*, const std::shared_ptr<MemoryPool>&) const override {
        return Status::Invalid("");
    }
};
struct IndexFactory : FileIndexerFactory {
    const char* Identifier() const override { return "rec-index"; }
    Result<std::unique_ptr<FileIndexer>> Create(const std::map<std::string, std::string>& o) const override {
        if (o.count("bad")) return Status::Invalid("bad option");
        auto i = std::make_unique<Indexer>();
        i->options = o;
        return i;
    }
};
// a file index and a global index may share a name
struct SharedNameFactory : FileIndexerFactory {
    const char* Identifier() const override { return "rec-both"; }
    Result<std::unique_ptr<FileIndexer>> Create(const std::map<std::string, std::string>& o) const override {
        return std::make_unique<Indexer>();
    }
};

REGISTER_PAIMON_FACTORY(IndexFactory);
REGISTER_PAIMON_FACTORY(SharedNameFactory);
using FsFactory0 = FsFactory<0>;
using FsFactory1 = FsFactory<1>;
using FsFactory2 = FsFactory<2>;
REGISTER_PAIMON_FACTORY(FsFactory0);
REGISTER_PAIMON_FACTORY(FsFactory1);
REGISTER_PAIMON_FACTORY(FsFactory2);

std::string Scheme(Case& c) { return c.PickOf<std::string>({"", "file", "oss", "s3a", "X"}); }

struct Uri {
    std::string scheme, authority, text;
};
Uri GenUri(Case& c) {
    Uri u;
    u.scheme = Scheme(c);
    u.authority = c.PickOf<std::string>({"", "a", "b", "h:80"});
    if (u.scheme.empty()) u.authority = "";
    std::string path = "/" + c.PickOf<std::string>({"t", "t/x", "t//y", "c:d"});
    u.text = (u.scheme.empty() ? "" : u.scheme + ":") +
             (u.authority.empty() ? (u.scheme.empty() || c.Bool() ? "" : "//") : "//" + u.authority) + path;
    return u;
}

// The call made on the resolving file system, in the words of the recorder.
std::string Call(Case& c, ResolvingFileSystem& fs, const std::string& p, Status* out, std::string* extra) {
    std::vector<std::unique_ptr<BasicFileStatus>> list;
    std::vector<std::unique_ptr<FileStatus>> files;
    switch (c.Draw(8)) {
        case 0: *out = fs.Open(p).status(); return "open " + p;
        case 1: {
            bool o = c.Bool();
            *out = fs.Create(p, o).status();
            return "create " + p + (o ? " over" : "");
        }
        case 2: *out = fs.Mkdirs(p); return "mkdirs " + p;
        case 3: {
            std::string q = p + "2";
            *out = fs.Rename(p, q);
            return "rename " + p + " " + q;
        }
        case 4: {
            bool r = c.Bool();
            *out = fs.Delete(p, r);
            return "delete " + p + (r ? " all" : "");
        }
        case 5: *out = fs.GetFileStatus(p).status(); return "stat " + p;
        case 6: *out = fs.ListDir(p, &list); return "list " + p;
        case 7: {
            *out = fs.ListFileStatus(p, &files);
            if (out->ok() && files.size() != 1) *extra = "file list lost";
            return "files " + p;
        }
        default: {
            auto e = fs.Exists(p);
            *out = e.status();
            if (e.ok() && e.value() != (p.size() % 2 == 0)) *extra = "answer changed";
            return "exists " + p;
        }
    }
}
}  // namespace

FACET(resolve, 6) {
    {
        std::lock_guard<std::mutex> l(g_mu);
        g_made.clear();
        g_calls.clear();
        g_refuse = "";
    }
    std::map<std::string, std::string> schemes, options;
    auto ident = [&] { return c.PickOf<std::string>({"rec0", "rec1", "rec2", "none", "rec-index"}); };
    for (int64_t i = 0, n = c.Len(0, 4); i < n; i++) schemes[Scheme(c)] = ident();
    std::string fallback = ident();
    if (c.Bool()) options["k"] = c.Ascii(3);
    ResolvingFileSystem fs(schemes, fallback, options);
    // paths without a scheme are local files
    if (schemes.count("file")) schemes[""] = schemes["file"];
    std::map<std::pair<std::string, std::string>, std::pair<std::string, int>> model;
    int64_t n = c.Len(1, 14);
    c.NonTrivial(n >= 3);
    for (int64_t i = 0; i < n; i++) {
        if (c.Chance(1, 10)) g_refuse = c.PickOf<std::string>({"rec0", "rec1", ""});
        Uri u = GenUri(c);
        c.Log() << u.text << " ";
        auto key = std::make_pair(u.scheme, u.authority);
        std::string id = schemes.count(u.scheme) ? schemes[u.scheme] : fallback;
        bool cached = model.count(key);
        bool usable = cached || ((id == "rec0" || id == "rec1" || id == "rec2") && id != g_refuse);
        size_t made = g_made.size(), calls = g_calls.size();
        Status st;
        std::string extra;
        std::string want = Call(c, fs, u.text, &st, &extra);
        REQUIRE(extra.empty(), "answer", extra);
        if (!usable) {
            REQUIRE(st.IsInvalid() && g_made.size() == made && g_calls.size() == calls, "refused", id << ": " << st.ToString());
            continue;
        }
        if (!cached) {
            REQUIRE(g_made.size() == made + 1, "made", g_made.size() - made << " file systems for " << u.text);
            REQUIRE(g_made.back().identifier == id && g_made.back().path == u.text && g_made.back().options == options, "made-of",
                    g_made.back().identifier << " " << g_made.back().path << " want " << id);
            model[key] = {id, static_cast<int>(g_made.size())};
        } else {
            REQUIRE(g_made.size() == made, "made-again", u.text);
        }
        want = model[key].first + "#" + std::to_string(model[key].second) + " " + want;
        REQUIRE(g_calls.size() == calls + 1 && g_calls.back() == want, "call",
                (g_calls.empty() ? "" : g_calls.back()) << " want " << want);
        REQUIRE(st.ok() || st.ToString().find(want) != std::string::npos, "error", st.ToString());
    }
    REQUIRE(!fs.Exists("").ok(), "empty-path", "");
}

FACET(threads, 1) {
    {
        std::lock_guard<std::mutex> l(g_mu);
        g_made.clear();
        g_calls.clear();
        g_refuse = "";
    }
    ResolvingFileSystem fs({{"file", "rec0"}, {"oss", "rec1"}}, "rec2", {});
    int64_t n = c.Int(2, 4);
    std::vector<std::vector<std::string>> paths(n);
    std::set<std::string> keys;
    size_t total = 0;
    for (auto& p : paths) {
        for (int64_t i = 0, k = c.Len(1, 6); i < k; i++) {
            Uri u = GenUri(c);
            p.push_back(u.text);
            keys.insert(u.scheme + " " + u.authority);
            total++;
        }
    }
    c.NonTrivial(total >= 4);
    std::vector<std::thread> ts;
    for (auto& p : paths) {
        ts.emplace_back([&fs, &p] {
            for (auto& x : p) (void)fs.Exists(x).ok();
        });
    }
    for (auto& t : ts) t.join();
    REQUIRE(g_made.size() == keys.size(), "made", g_made.size() << " file systems for " << keys.size() << " places");
    REQUIRE(g_calls.size() == total, "calls", g_calls.size() << " of " << total);
}

FACET(factories, 2) {
    auto id = c.PickOf<std::string>({"rec0", "rec-index", "rec-both", "bitmap", "bsi", "bloom-filter", "none", "", "orc", "local", "bitmap-global"});
    std::map<std::string, std::string> o;
    if (c.Bool()) o["x"] = c.Ascii(2);
    if (c.Chance(1, 4)) o["bad"] = "1";
    c.NonTrivial();
    c.Log() << id;
    bool is_index = id == "rec-index" || id == "rec-both" || id == "bitmap" || id == "bsi" || id == "bloom-filter";
    auto index = FileIndexerFactory::Get(id, o);
    if (id == "rec-index" && o.count("bad")) {
        REQUIRE(index.status().IsInvalid(), "index-error", index.status().ToString());
    } else {
        if (!index.ok()) FAIL("index", index.status().ToString());
        REQUIRE((index.value() != nullptr) == is_index, "index", id);
        if (id == "rec-index") {
            auto* mine = dynamic_cast<Indexer*>(index.value().get());
            REQUIRE(mine && mine->options == o, "index-options", "");
        }
    }
    auto global = GlobalIndexerFactory::Get(id, o);
    if (!global.ok()) FAIL("global", global.status().ToString());
    REQUIRE((global.value() != nullptr) == (id == "bitmap"), "global", id);
    {
        std::lock_guard<std::mutex> l(g_mu);
        g_made.clear();
        g_refuse = "";
    }
    auto fs = FileSystemFactory::Get(id, "/p", o);
    REQUIRE(fs.ok() == (id == "rec0" || id == "local"), "file-system", id << " " << fs.status().ToString());
    if (!fs.ok()) REQUIRE(fs.status().IsInvalid(), "file-system", fs.status().ToString());
    auto format = FileFormatFactory::Get(id, o);
    REQUIRE(format.ok() == (id == "orc"), "format", id << " " << format.status().ToString());
    if (format.ok()) REQUIRE(format.value()->Identifier() == "orc", "format", format.value()->Identifier());
    // what is registered can be listed and found
    auto* creator = FactoryCreator::GetInstance();
    auto types = creator->GetRegisteredType();
    std::set<std::string> set(types.begin(), types.end());
    REQUIRE(set.size() == types.size(), "listed-twice", types.size());
    REQUIRE(set.count("rec-index") && set.count("rec0") && set.count("rec2") && !set.count("none"), "listed", "");
    for (auto& t : types) {
        auto* f = creator->Create(t);
        REQUIRE(f && t == f->Identifier(), "found", t);
    }
}
