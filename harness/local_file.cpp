// Files on the local disk next to a model of names and contents; faults injected at every step.
// Everything happens in a scratch directory of the run.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <map>
#include <memory>

#include "paimon/common/factories/io_hook.h"
#include "paimon/common/utils/path_util.h"
#include "paimon/fs/local/local_file.h"
#include "paimon/fs/local/local_file_status.h"
#include "pbt.h"

using namespace paimon;
using pbt::Case;
namespace fs = std::filesystem;

// The only part of the path helpers these files need; the real one needs a library that is not
// installed.
namespace paimon {
std::string PathUtil::JoinPath(const std::string& dir, const std::string& name) noexcept {
    return dir.empty() || dir.back() == '/' ? dir + name : dir + "/" + name;
}
}  // namespace paimon

namespace {
std::string Root() {
    static std::string root = pbt::ScratchDir() + "/lf-" + std::to_string(getpid());
    return root;
}
std::string Slurp(const std::string& p) {
    std::ifstream in(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(in), {});
}
std::string Data(Case& c, int64_t max) {
    if (c.Chance(1, 15)) {
        return std::string(c.PickOf<int64_t>({4095, 4096, 4097, 8192, 10000}), static_cast<char>('a' + c.Int(0, 25)));
    }
    return c.Bytes(c.Len(0, max));
}
struct Fresh {
    Fresh() {
        IOHook::GetInstance()->Clear();
        fs::remove_all(Root());
        fs::create_directories(Root());
    }
    ~Fresh() {
        IOHook::GetInstance()->Clear();
        fs::remove_all(Root());
    }
};
}  // namespace

FACET(write_then_read, 4) {
    Fresh fresh;
    std::string path = Root() + "/f";
    std::string model;
    if (c.Bool()) {  // writing replaces what was there
        std::ofstream(path) << "something older and longer than most of what is written";
    }
    LocalFile w(path);
    REQUIRE_OK(w.OpenFile(false), "open-for-write");
    int64_t n = c.Len(0, 6);
    for (int64_t i = 0; i < n; i++) {
        std::string d = Data(c, 60);
        auto r = w.Write(d.data(), d.size());
        REQUIRE(r.ok() && r.value() == static_cast<int32_t>(d.size()), "write", d.size());
        model += d;
        UNWRAP(int64_t at, w.Tell(), "tell");
        REQUIRE(at == static_cast<int64_t>(model.size()), "write-position", at);
        if (c.Chance(1, 3)) {
            REQUIRE_OK(w.Flush(), "flush");
            REQUIRE(Slurp(path) == model, "flushed-contents", Slurp(path).size() << " want " << model.size());
        }
    }
    REQUIRE_OK(w.Close(), "close");
    REQUIRE(Slurp(path) == model, "contents", Slurp(path).size() << " want " << model.size());
    REQUIRE(!w.Write("x", 1).ok() && !w.Flush().ok(), "write-after-close", "");
    c.NonTrivial(n >= 2 && model.size() >= 2);

    LocalFile r(path);
    UNWRAP(uint64_t len, r.Length(), "length");
    REQUIRE(len == model.size(), "length", len);
    REQUIRE_OK(r.OpenFile(true), "open-for-read");
    int64_t pos = 0;
    int64_t size = static_cast<int64_t>(model.size());
    int64_t steps = c.Len(1, 8);
    for (int64_t i = 0; i < steps; i++) {
        int64_t want = c.PickOf<int64_t>({1, 2, 7, 16, 60, 5000, 0});
        std::string buf(want, '#');
        switch (c.Int(0, 2)) {
            case 0: {
                auto got = r.Read(buf.data(), want);
                REQUIRE(got.ok(), "read", got.status().ToString());
                int64_t expect = std::min(want, size - pos);
                REQUIRE(got.value() == expect, "read-count", got.value() << " want " << expect);
                REQUIRE(buf.substr(0, expect) == model.substr(pos, expect), "read-bytes", pos);
                pos += expect;
                break;
            }
            case 1: {
                int64_t off = c.Int(0, size + 3);
                auto got = r.Read(buf.data(), want, off);
                REQUIRE(got.ok(), "pread", got.status().ToString());
                int64_t expect = std::min(want, std::max<int64_t>(size - off, 0));
                REQUIRE(got.value() == expect, "pread-count", got.value() << " want " << expect);
                REQUIRE(expect == 0 || buf.substr(0, expect) == model.substr(off, expect), "pread-bytes", off);
                break;
            }
            default: {
                int64_t to = c.Int(0, size);
                int how = static_cast<int>(c.Int(0, 2));
                int64_t arg = how == 0 ? to : how == 1 ? to - pos : to - size;
                REQUIRE_OK(r.Seek(arg, how == 0 ? SEEK_SET : how == 1 ? SEEK_CUR : SEEK_END), "seek");
                pos = to;
            }
        }
        UNWRAP(int64_t at, r.Tell(), "tell");
        REQUIRE(at == pos, "position", at << " want " << pos);
    }
    REQUIRE(!r.Seek(-1, SEEK_SET).ok(), "seek-before-start", "");
    REQUIRE_OK(r.Close(), "close");
    REQUIRE(!r.Read(nullptr, 1).ok(), "read-after-close", "");
    REQUIRE_OK(r.Close(), "close-twice");
}

FACET(names, 3) {
    Fresh fresh;
    std::map<std::string, int64_t> model;  // -1 is a directory, else the length of a file
    const std::vector<std::string> names = {"a", "b", "d", "d/x", "d/y", "d/e", "d/e/z"};
    auto parent = [](const std::string& n) {
        size_t k = n.rfind('/');
        return k == std::string::npos ? std::string() : n.substr(0, k);
    };
    auto below_a_file = [&](std::string n) {
        for (n = parent(n); !n.empty(); n = parent(n)) {
            if (model.count(n) && model[n] != -1) {
                return true;
            }
        }
        return false;
    };
    auto is_dir = [&](const std::string& n) { return n.empty() || (model.count(n) && model[n] == -1); };
    int64_t n = c.Len(1, 12);
    for (int64_t i = 0; i < n; i++) {
        std::string name = c.Pick(names);
        LocalFile f(Root() + "/" + name);
        bool there = model.count(name) != 0;
        bool under_file = below_a_file(name);
        switch (c.Weighted({3, 3, 2, 1})) {
            case 0: {
                bool can = !there && is_dir(parent(name));
                auto r = f.Mkdir();
                c.Log() << "mkdir " << name << " ";
                REQUIRE(r.ok() && r.value() == can, "mkdir", name);
                if (can) {
                    model[name] = -1;
                }
                break;
            }
            case 1: {
                bool can = is_dir(parent(name)) && !(there && model[name] == -1);
                std::string d = c.Bytes(c.Int(0, 9));
                Status st = f.OpenFile(false);
                c.Log() << "write " << name << " ";
                REQUIRE(st.ok() == can, "create", name << " " << st.ToString());
                if (can) {
                    REQUIRE(f.Write(d.data(), d.size()).ok(), "write", name);
                    REQUIRE_OK(f.Close(), "close");
                    model[name] = static_cast<int64_t>(d.size());
                }
                break;
            }
            case 2: {
                bool full = false;
                for (auto& [k, v] : model) {
                    full = full || (k.size() > name.size() && k.compare(0, name.size() + 1, name + "/") == 0);
                }
                Status st = f.Delete();
                c.Log() << "delete " << name << " ";
                if (under_file) {
                    break;  // neither existing nor a plain absence
                }
                REQUIRE(st.ok() == !full, "delete", name << " " << st.ToString());
                if (!full) {
                    model.erase(name);
                }
                break;
            }
            default: {
                bool can = there && model[name] != -1;
                Status st = f.OpenFile(true);
                REQUIRE(st.ok() == can, "open", name << " " << st.ToString());
                if (can) {
                    REQUIRE_OK(f.Close(), "close");
                }
            }
        }
    }
    c.NonTrivial(n >= 3 && model.size() >= 1);
    for (auto& name : names) {
        LocalFile f(Root() + "/" + name);
        bool there = model.count(name) != 0;
        auto e = f.Exists();
        bool under_file = below_a_file(name);
        REQUIRE((e.ok() && e.value() == there) || (under_file && !e.ok()), "exists", name);
        if (!there) {
            REQUIRE(!f.IsDir().ok() && !f.IsFile().ok() && !f.Length().ok(), "status-of-missing", name);
            continue;
        }
        UNWRAP(bool d, f.IsDir(), "is-dir");
        UNWRAP(bool file, f.IsFile(), "is-file");
        REQUIRE(d == (model[name] == -1) && file == !d, "kind", name);
        auto s = f.GetFileStatus();
        REQUIRE(s.ok() && s.value()->IsDir() == d && s.value()->GetPath() == Root() + "/" + name, "status", name);
        struct stat st;
        stat((Root() + "/" + name).c_str(), &st);
        REQUIRE(s.value()->GetModificationTime() / 1000 == st.st_mtime, "modified", name);
        UNWRAP(int64_t modified, f.LastModifiedTimeMs(), "modified");
        REQUIRE(modified == s.value()->GetModificationTime(), "modified-twice", name);
        if (!d) {
            REQUIRE(static_cast<int64_t>(s.value()->GetLen()) == model[name], "length", name);
        } else {
            std::set<std::string> want, got, paths;
            for (auto& [k, v] : model) {
                if (parent(k) == name) {
                    want.insert(k.substr(name.size() + 1));
                }
            }
            std::vector<std::string> list = {"stale"};
            REQUIRE_OK(f.List(&list), "list");
            for (auto& x : list) {
                REQUIRE(got.insert(x).second, "listed-twice", x);
            }
            REQUIRE(got == want, "list", name << " has " << got.size() << " want " << want.size());
            std::vector<LocalFile> files;
            REQUIRE_OK(f.ListFiles(&files), "list-files");
            REQUIRE(files.size() == want.size(), "list-files", name);
            for (auto& x : files) {
                REQUIRE(want.count(x.GetAbsolutePath().substr(Root().size() + name.size() + 2)), "list-files",
                        x.GetAbsolutePath());
            }
        }
        REQUIRE(f.GetParentFile().GetAbsolutePath() ==
                    Root() + (parent(name).empty() ? "" : "/" + parent(name)),
                "parent", f.GetParentFile().GetAbsolutePath());
    }
}

// With the fault set at position k, the calls before it go through and the next one reports it.
FACET(faults, 3) {
    Fresh fresh;
    std::string path = Root() + "/f";
    int64_t k = c.Int(0, 14);
    bool throwing = c.Bool();
    auto* hook = IOHook::GetInstance();
    std::string a = c.Bytes(c.Int(1, 20)), b = c.Bytes(c.Int(1, 20));
    hook->Reset(k, throwing ? IOHook::Mode::THROW_EXCEPTION : IOHook::Mode::RETURN_ERROR);
    int64_t done = 0;  // steps that went through
    bool failed = false;
    std::string written;
    auto step = [&](auto f) {
        if (failed) {
            return;
        }
        bool ok = false;
        try {
            ok = f();
        } catch (const std::runtime_error&) {
            REQUIRE(throwing, "threw-in-return-mode", "");
        }
        if (ok) {
            done++;
        } else {
            failed = true;
        }
    };
    LocalFile w(path);
    step([&] { return w.OpenFile(false).ok(); });
    step([&] {
        auto r = w.Write(a.data(), a.size());
        written += r.ok() ? a : "";
        return r.ok();
    });
    step([&] { return w.Flush().ok(); });
    step([&] {
        auto r = w.Write(b.data(), b.size());
        written += r.ok() ? b : "";
        return r.ok();
    });
    step([&] { return w.Close().ok(); });
    bool write_done = !failed;
    LocalFile r(path);
    std::string got(written.size(), '#');
    step([&] { return r.OpenFile(true).ok(); });
    step([&] {
        auto n = r.Read(got.data(), got.size());
        return n.ok() && n.value() == static_cast<int32_t>(got.size());
    });
    bool read_done = !failed;
    step([&] { return r.Close().ok(); });
    int64_t count = hook->IOCount();
    c.Log() << "fault at " << k << (throwing ? " throwing" : "") << ", " << done << " steps, " << count << " calls";
    c.NonTrivial(k >= 1);
    if (failed) {
        REQUIRE(count == k + 1, "fault-position", count << " calls with the fault at " << k);
    } else {
        REQUIRE(count <= k, "fault-swallowed", count << " calls, fault at " << k);
    }
    if (write_done) {
        REQUIRE(Slurp(path) == a + b, "contents", "");
    }
    if (read_done && write_done) {
        REQUIRE(got == a + b, "read-back", "");
    }
    hook->Clear();
    w.Close().ok();
    r.Close().ok();
    // nothing is left behind by the fault
    LocalFile again(path);
    REQUIRE_OK(again.OpenFile(false), "after-clear");
    REQUIRE_OK(again.Close(), "after-clear");
}

FACET(hook, 1) {
    IOHook h;
    int64_t pos = c.Int(0, 8);
    auto mode = c.PickOf<IOHook::Mode>({IOHook::Mode::RETURN_ERROR, IOHook::Mode::THROW_EXCEPTION, IOHook::Mode::SILENT});
    for (int round = 0; round < 2; round++) {
        h.Reset(pos, mode);
        int64_t n = c.Int(0, 14);
        for (int64_t i = 0; i < n; i++) {
            bool ok = true, threw = false;
            try {
                Status st = h.Try("p");
                ok = st.ok();
                REQUIRE(ok || st.IsIOError(), "kind", st.ToString());
            } catch (const std::exception&) {
                threw = true;
            }
            bool due = i >= pos;
            REQUIRE(threw == (due && mode == IOHook::Mode::THROW_EXCEPTION), "throw", i);
            REQUIRE(threw || ok == !(due && mode == IOHook::Mode::RETURN_ERROR), "error", i);
            REQUIRE(h.IOCount() == i + 1, "count", h.IOCount());
        }
        c.NonTrivial(n > pos);
    }
    h.Clear();
    REQUIRE(h.IOCount() == 0 && h.Try("p").ok(), "clear", "");
}
