#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>

#include "paimon/fs/file_system.h"

// An in-memory file system, chosen with the option file-system=mem. Table harnesses use it so
// that nothing the code under test deletes or overwrites is real, and so that a fault, a crash or
// a second writer can be placed between any two operations. The option mem.owner names the client
// an operation belongs to.
namespace memfs {

enum class Op { kExists, kOpen, kRead, kCreate, kWrite, kFlush, kClose, kMkdirs, kRename, kDelete, kStat, kList };
const char* OpName(Op op);

struct Event {
    Op op;
    std::string path;   // dst for a rename
    std::string owner;
    int64_t number;     // counts this owner's operations since the hook was set
};

enum class Verdict {
    kGo,          // carry the operation out
    kFail,        // no effect, return an error
    kFailAfter,   // carry it out, then return an error
};

struct Node {
    bool dir = false;
    std::shared_ptr<std::string> data;
    int64_t mtime = 0;
};

class Store {
 public:
    static Store& Get();
    void Reset();

    // Called before every operation, without any lock held.
    void SetHook(std::function<Verdict(const Event&)> hook);
    void ClearHook();

    std::map<std::string, Node> Snapshot() const;
    void Restore(const std::map<std::string, Node>& files);
    // all regular files below the directory
    std::set<std::string> Files(const std::string& under) const;
    bool Has(const std::string& path) const;
    std::string Content(const std::string& path) const;
    void Put(const std::string& path, const std::string& content);
    void Remove(const std::string& path);
    void SetClock(int64_t now_ms);
    void Touch(const std::string& path, int64_t mtime);
    int64_t OpenOutputs() const { return open_outputs_; }

    // used by the file system
    Verdict Ask(Op op, const std::string& path, const std::string& owner);
    mutable std::mutex mu_;
    std::map<std::string, Node> nodes_;
    int64_t now_ms_ = 1700000000000;
    std::atomic<int64_t> open_outputs_{0};

 private:
    std::mutex hook_mu_;
    std::shared_ptr<std::function<Verdict(const Event&)>> hook_;
    std::map<std::string, int64_t> numbers_;
};

std::string Normal(const std::string& path);
std::unique_ptr<paimon::FileSystem> New(const std::string& owner);

}  // namespace memfs
