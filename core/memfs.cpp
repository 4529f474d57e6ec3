#include "memfs.h"

#include <cstring>

#include "paimon/factories/factory.h"
#include "paimon/fs/file_system_factory.h"

namespace memfs {
using paimon::BasicFileStatus;
using paimon::FileStatus;
using paimon::InputStream;
using paimon::OutputStream;
using paimon::Result;
using paimon::SeekOrigin;
using paimon::Status;

const char* OpName(Op op) {
    static const char* names[] = {"exists", "open",   "read",   "create", "write", "flush",
                                  "close",  "mkdirs", "rename", "delete", "stat",  "list"};
    return names[static_cast<int>(op)];
}

std::string Normal(const std::string& path) {
    std::string p = path;
    size_t colon = p.find(':');
    size_t slash = p.find('/');
    if (colon != std::string::npos && slash != std::string::npos && colon < slash) {
        p = p.substr(colon + 1);
    }
    std::string out;
    for (char ch : p) {
        if (ch == '/' && !out.empty() && out.back() == '/') {
            continue;
        }
        out += ch;
    }
    if (out.empty() || out[0] != '/') {
        out = "/" + out;
    }
    while (out.size() > 1 && out.back() == '/') {
        out.pop_back();
    }
    return out;
}

static std::string Parent(const std::string& p) {
    size_t at = p.rfind('/');
    return at == 0 || at == std::string::npos ? "/" : p.substr(0, at);
}

Store& Store::Get() {
    static Store* store = new Store();
    return *store;
}

void Store::Reset() {
    ClearHook();
    std::lock_guard<std::mutex> lock(mu_);
    nodes_.clear();
    nodes_["/"] = Node{true, nullptr, 0};
    now_ms_ = 1700000000000;
}

void Store::SetHook(std::function<Verdict(const Event&)> hook) {
    std::lock_guard<std::mutex> lock(hook_mu_);
    numbers_.clear();
    hook_ = std::make_shared<std::function<Verdict(const Event&)>>(std::move(hook));
}

void Store::ClearHook() {
    std::lock_guard<std::mutex> lock(hook_mu_);
    hook_.reset();
}

Verdict Store::Ask(Op op, const std::string& path, const std::string& owner) {
    std::shared_ptr<std::function<Verdict(const Event&)>> hook;
    Event e{op, path, owner, 0};
    {
        std::lock_guard<std::mutex> lock(hook_mu_);
        if (!hook_) {
            return Verdict::kGo;
        }
        hook = hook_;
        e.number = numbers_[owner]++;
    }
    return (*hook)(e);
}

std::map<std::string, Node> Store::Snapshot() const {
    std::lock_guard<std::mutex> lock(mu_);
    std::map<std::string, Node> copy = nodes_;
    for (auto& [path, node] : copy) {
        if (node.data) {
            node.data = std::make_shared<std::string>(*node.data);
        }
    }
    return copy;
}

void Store::Restore(const std::map<std::string, Node>& files) {
    std::lock_guard<std::mutex> lock(mu_);
    nodes_ = files;
    for (auto& [path, node] : nodes_) {
        if (node.data) {
            node.data = std::make_shared<std::string>(*node.data);
        }
    }
}

std::set<std::string> Store::Files(const std::string& under) const {
    std::string dir = Normal(under);
    std::lock_guard<std::mutex> lock(mu_);
    std::set<std::string> out;
    for (const auto& [path, node] : nodes_) {
        if (!node.dir && path.size() > dir.size() && path.compare(0, dir.size(), dir) == 0 &&
            path[dir.size()] == '/') {
            out.insert(path);
        }
    }
    return out;
}

bool Store::Has(const std::string& path) const {
    std::lock_guard<std::mutex> lock(mu_);
    return nodes_.count(Normal(path)) > 0;
}

std::string Store::Content(const std::string& path) const {
    std::lock_guard<std::mutex> lock(mu_);
    auto it = nodes_.find(Normal(path));
    return it == nodes_.end() || !it->second.data ? std::string() : *it->second.data;
}

static void MakeDirs(std::map<std::string, Node>* nodes, const std::string& dir, int64_t now) {
    for (std::string p = dir;; p = Parent(p)) {
        if (!nodes->emplace(p, Node{true, nullptr, now}).second || p == "/") {
            break;
        }
    }
}

void Store::Put(const std::string& path, const std::string& content) {
    std::string p = Normal(path);
    std::lock_guard<std::mutex> lock(mu_);
    MakeDirs(&nodes_, Parent(p), now_ms_);
    nodes_[p] = Node{false, std::make_shared<std::string>(content), now_ms_};
}

void Store::Remove(const std::string& path) {
    std::lock_guard<std::mutex> lock(mu_);
    nodes_.erase(Normal(path));
}

void Store::SetClock(int64_t now_ms) {
    std::lock_guard<std::mutex> lock(mu_);
    now_ms_ = now_ms;
}

void Store::Touch(const std::string& path, int64_t mtime) {
    std::lock_guard<std::mutex> lock(mu_);
    auto it = nodes_.find(Normal(path));
    if (it != nodes_.end()) {
        it->second.mtime = mtime;
    }
}

namespace {

Status Injected(Op op, const std::string& path) {
    return Status::IOError("injected failure of ", OpName(op), " on ", path);
}

#define MEMFS_ASK(op, path)                                   \
    Verdict verdict = Store::Get().Ask(op, path, owner_);     \
    if (verdict == Verdict::kFail) return Injected(op, path); \
    bool fail_after = verdict == Verdict::kFailAfter;         \
    (void)fail_after

class MemInput : public InputStream {
 public:
    MemInput(std::string path, std::string owner, std::shared_ptr<std::string> data)
        : path_(std::move(path)), owner_(std::move(owner)), data_(std::move(data)) {}

    Status Seek(int64_t offset, SeekOrigin origin) override {
        if (!data_) return Status::IOError("closed");
        int64_t base = origin == paimon::FS_SEEK_SET   ? 0
                       : origin == paimon::FS_SEEK_CUR ? pos_
                                                       : static_cast<int64_t>(Size());
        if (base + offset < 0) return Status::Invalid("seek before the start of ", path_);
        pos_ = base + offset;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos_; }
    Result<int32_t> Read(char* buffer, uint32_t size) override {
        PAIMON_ASSIGN_OR_RAISE(int32_t n, Read(buffer, size, static_cast<uint64_t>(pos_)));
        pos_ += n;
        return n;
    }
    Result<int32_t> Read(char* buffer, uint32_t size, uint64_t offset) override {
        if (!data_) return Status::IOError("read of a closed stream of ", path_);
        MEMFS_ASK(Op::kRead, path_);
        std::lock_guard<std::mutex> lock(Store::Get().mu_);
        if (offset > data_->size() || data_->size() - offset < size) {
            return Status::IOError("file ", path_, " is shorter than asked for");
        }
        std::memcpy(buffer, data_->data() + offset, size);
        if (fail_after) return Injected(Op::kRead, path_);
        return static_cast<int32_t>(size);
    }
    void ReadAsync(char* buffer, uint32_t size, uint64_t offset,
                   std::function<void(Status)>&& callback) override {
        auto r = Read(buffer, size, offset);
        callback(r.ok() ? Status::OK() : r.status());
    }
    Result<std::string> GetUri() const override { return path_; }
    Result<uint64_t> Length() const override { return static_cast<uint64_t>(Size()); }
    Status Close() override {
        data_.reset();
        return Status::OK();
    }

 private:
    size_t Size() const {
        std::lock_guard<std::mutex> lock(Store::Get().mu_);
        return data_ ? data_->size() : 0;
    }
    std::string path_;
    std::string owner_;
    std::shared_ptr<std::string> data_;
    int64_t pos_ = 0;
};

class MemOutput : public OutputStream {
 public:
    MemOutput(std::string path, std::string owner, std::shared_ptr<std::string> data)
        : path_(std::move(path)), owner_(std::move(owner)), data_(std::move(data)) {
        Store::Get().open_outputs_++;
    }
    ~MemOutput() override {
        if (data_) Store::Get().open_outputs_--;
    }
    Result<int32_t> Write(const char* buffer, uint32_t size) override {
        if (!data_) return Status::IOError("write to a closed stream of ", path_);
        MEMFS_ASK(Op::kWrite, path_);
        std::lock_guard<std::mutex> lock(Store::Get().mu_);
        if (fail_after) {
            // part of the data arrived
            data_->append(buffer, size / 2);
            pos_ += size / 2;
            return Injected(Op::kWrite, path_);
        }
        data_->append(buffer, size);
        pos_ += size;
        return static_cast<int32_t>(size);
    }
    Status Flush() override {
        MEMFS_ASK(Op::kFlush, path_);
        return fail_after ? Injected(Op::kFlush, path_) : Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos_; }
    Result<std::string> GetUri() const override { return path_; }
    Status Close() override {
        if (!data_) return Status::OK();
        Verdict verdict = Store::Get().Ask(Op::kClose, path_, owner_);
        data_.reset();
        Store::Get().open_outputs_--;
        return verdict == Verdict::kGo ? Status::OK() : Injected(Op::kClose, path_);
    }

 private:
    std::string path_;
    std::string owner_;
    std::shared_ptr<std::string> data_;
    int64_t pos_ = 0;
};

class MemBasicStatus : public BasicFileStatus {
 public:
    MemBasicStatus(std::string path, bool dir) : path_(std::move(path)), dir_(dir) {}
    bool IsDir() const override { return dir_; }
    std::string GetPath() const override { return path_; }

 private:
    std::string path_;
    bool dir_;
};

class MemStatus : public FileStatus {
 public:
    MemStatus(std::string path, bool dir, uint64_t len, int64_t mtime)
        : path_(std::move(path)), dir_(dir), len_(len), mtime_(mtime) {}
    uint64_t GetLen() const override { return len_; }
    bool IsDir() const override { return dir_; }
    std::string GetPath() const override { return path_; }
    int64_t GetModificationTime() const override { return mtime_; }

 private:
    std::string path_;
    bool dir_;
    uint64_t len_;
    int64_t mtime_;
};

class MemFileSystem : public paimon::FileSystem {
 public:
    explicit MemFileSystem(std::string owner) : owner_(std::move(owner)) {}

    Result<std::unique_ptr<InputStream>> Open(const std::string& path) const override {
        std::string p = Normal(path);
        MEMFS_ASK(Op::kOpen, p);
        std::lock_guard<std::mutex> lock(S().mu_);
        auto it = S().nodes_.find(p);
        if (it == S().nodes_.end()) return Status::NotExist("File '", path, "' not exists");
        if (it->second.dir) return Status::IOError("'", path, "' is a directory");
        if (fail_after) return Injected(Op::kOpen, p);
        return std::unique_ptr<InputStream>(new MemInput(p, owner_, it->second.data));
    }

    Result<std::unique_ptr<OutputStream>> Create(const std::string& path,
                                                 bool overwrite) const override {
        std::string p = Normal(path);
        MEMFS_ASK(Op::kCreate, p);
        std::lock_guard<std::mutex> lock(S().mu_);
        auto it = S().nodes_.find(p);
        if (it != S().nodes_.end() && it->second.dir) {
            return Status::IOError("'", path, "' is a directory");
        }
        if (it != S().nodes_.end() && !overwrite) {
            return Status::Invalid("do not allow overwrite, but the file ", path,
                                   " already exists");
        }
        MakeDirs(&S().nodes_, Parent(p), S().now_ms_);
        auto data = std::make_shared<std::string>();
        S().nodes_[p] = Node{false, data, S().now_ms_};
        if (fail_after) return Injected(Op::kCreate, p);
        return std::unique_ptr<OutputStream>(new MemOutput(p, owner_, data));
    }

    Status Mkdirs(const std::string& path) const override {
        std::string p = Normal(path);
        MEMFS_ASK(Op::kMkdirs, p);
        std::lock_guard<std::mutex> lock(S().mu_);
        for (std::string q = p; q != "/"; q = Parent(q)) {
            auto it = S().nodes_.find(q);
            if (it != S().nodes_.end() && !it->second.dir) {
                return Status::IOError("file ", q, " already exists and is not a directory");
            }
        }
        MakeDirs(&S().nodes_, p, S().now_ms_);
        return fail_after ? Injected(Op::kMkdirs, p) : Status::OK();
    }

    Status Rename(const std::string& src, const std::string& dst) const override {
        std::string s = Normal(src);
        std::string d = Normal(dst);
        MEMFS_ASK(Op::kRename, d);
        std::lock_guard<std::mutex> lock(S().mu_);
        auto it = S().nodes_.find(s);
        if (it == S().nodes_.end()) return Status::NotExist("rename: no ", src);
        if (S().nodes_.count(d)) return Status::Invalid("rename: ", dst, " already exist");
        if (d.size() > s.size() && d.compare(0, s.size() + 1, s + "/") == 0) {
            return Status::IOError("rename of ", src, " into itself");
        }
        MakeDirs(&S().nodes_, Parent(d), S().now_ms_);
        std::map<std::string, Node> moved;
        for (auto i = S().nodes_.lower_bound(s); i != S().nodes_.end();) {
            if (i->first == s) {
                moved[d] = i->second;
                i = S().nodes_.erase(i);
            } else if (i->first.compare(0, s.size() + 1, s + "/") == 0) {
                moved[d + i->first.substr(s.size())] = i->second;
                i = S().nodes_.erase(i);
            } else if (i->first.compare(0, s.size(), s) == 0) {
                ++i;
            } else {
                break;
            }
        }
        S().nodes_.insert(moved.begin(), moved.end());
        return fail_after ? Injected(Op::kRename, d) : Status::OK();
    }

    Status Delete(const std::string& path, bool recursive) const override {
        std::string p = Normal(path);
        MEMFS_ASK(Op::kDelete, p);
        std::lock_guard<std::mutex> lock(S().mu_);
        auto it = S().nodes_.find(p);
        if (it == S().nodes_.end()) return Status::NotExist("delete: no ", path);
        std::vector<std::string> below;
        if (it->second.dir) {
            std::string prefix = p == "/" ? p : p + "/";
            for (auto i = S().nodes_.lower_bound(prefix);
                 i != S().nodes_.end() && i->first.compare(0, prefix.size(), prefix) == 0; ++i) {
                if (i->first != p) below.push_back(i->first);
            }
            if (!below.empty() && !recursive) {
                return Status::IOError("cannot delete ", path, ", directory is not empty");
            }
        }
        for (const auto& b : below) S().nodes_.erase(b);
        if (p != "/") S().nodes_.erase(p);
        return fail_after ? Injected(Op::kDelete, p) : Status::OK();
    }

    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& path) const override {
        std::string p = Normal(path);
        MEMFS_ASK(Op::kStat, p);
        std::lock_guard<std::mutex> lock(S().mu_);
        auto it = S().nodes_.find(p);
        if (it == S().nodes_.end()) return Status::NotExist("File ", path, " does not exist");
        if (fail_after) return Injected(Op::kStat, p);
        return Make(it->first, it->second);
    }

    Status ListDir(const std::string& directory,
                   std::vector<std::unique_ptr<BasicFileStatus>>* out) const override {
        std::string p = Normal(directory);
        MEMFS_ASK(Op::kList, p);
        std::lock_guard<std::mutex> lock(S().mu_);
        auto it = S().nodes_.find(p);
        if (it == S().nodes_.end()) return Status::OK();
        if (!it->second.dir) return Status::IOError("file ", directory, " is not a directory");
        for (const auto& path : Children(p)) {
            out->push_back(std::make_unique<MemBasicStatus>(path, S().nodes_[path].dir));
        }
        return fail_after ? Injected(Op::kList, p) : Status::OK();
    }

    Status ListFileStatus(const std::string& path,
                          std::vector<std::unique_ptr<FileStatus>>* out) const override {
        std::string p = Normal(path);
        MEMFS_ASK(Op::kList, p);
        std::lock_guard<std::mutex> lock(S().mu_);
        auto it = S().nodes_.find(p);
        if (it == S().nodes_.end()) return Status::OK();
        if (!it->second.dir) {
            out->push_back(Make(it->first, it->second));
        } else {
            for (const auto& child : Children(p)) out->push_back(Make(child, S().nodes_[child]));
        }
        return fail_after ? Injected(Op::kList, p) : Status::OK();
    }

    Result<bool> Exists(const std::string& path) const override {
        std::string p = Normal(path);
        MEMFS_ASK(Op::kExists, p);
        std::lock_guard<std::mutex> lock(S().mu_);
        if (fail_after) return Injected(Op::kExists, p);
        return S().nodes_.count(p) > 0;
    }

 private:
    static Store& S() { return Store::Get(); }
    static std::unique_ptr<FileStatus> Make(const std::string& path, const Node& node) {
        return std::make_unique<MemStatus>(path, node.dir, node.data ? node.data->size() : 0,
                                           node.mtime);
    }
    static std::vector<std::string> Children(const std::string& dir) {
        std::string prefix = dir == "/" ? dir : dir + "/";
        std::vector<std::string> out;
        for (auto i = S().nodes_.lower_bound(prefix);
             i != S().nodes_.end() && i->first.compare(0, prefix.size(), prefix) == 0; ++i) {
            if (i->first.size() > prefix.size() &&
                i->first.find('/', prefix.size()) == std::string::npos) {
                out.push_back(i->first);
            }
        }
        return out;
    }
    std::string owner_;
};

}  // namespace

std::unique_ptr<paimon::FileSystem> New(const std::string& owner) {
    return std::make_unique<MemFileSystem>(owner);
}
}  // namespace memfs

namespace paimon {
class MemFileSystemFactory : public FileSystemFactory {
 public:
    const char* Identifier() const override { return "mem"; }
    Result<std::unique_ptr<FileSystem>> Create(
        const std::string& path, const std::map<std::string, std::string>& options) const override {
        auto it = options.find("mem.owner");
        return memfs::New(it == options.end() ? std::string() : it->second);
    }
};
REGISTER_PAIMON_FACTORY(MemFileSystemFactory);
}  // namespace paimon
