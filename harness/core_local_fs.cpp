// C15: the local file system next to a model of one tree of names. Runs as an unprivileged user in
// a scratch directory.
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <map>

#include "paimon/common/factories/io_hook.h"
#include "paimon/fs/local/local_file_system.h"
#include "paimon/fs/local/local_file_system_factory.h"
#include "pbt.h"

using namespace paimon;  // NOLINT
using pbt::Case;
namespace sfs = std::filesystem;

namespace {
constexpr char kDir = 'd';
struct Entry {
    bool dir = false;
    std::string data;
    bool operator==(const Entry& o) const { return dir == o.dir && data == o.data; }
};
using Tree = std::map<std::string, Entry>;  // relative names; the root is not listed

std::string Root() {
    static std::string root = pbt::ScratchDir() + "/fs-" + std::to_string(getpid());
    return root;
}
struct Fresh {
    Fresh() {
        IOHook::GetInstance()->Clear();
        sfs::remove_all(Root());
        sfs::create_directories(Root());
    }
    ~Fresh() {
        IOHook::GetInstance()->Clear();
        sfs::remove_all(Root());
    }
};
std::string Slurp(const std::string& p) {
    std::ifstream in(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(in), {});
}
Tree Real() {
    Tree t;
    for (auto& e : sfs::recursive_directory_iterator(Root())) {
        std::string name = e.path().string().substr(Root().size() + 1);
        if (e.is_directory()) t[name] = {true, ""};
        else t[name] = {false, Slurp(e.path().string())};
    }
    return t;
}
std::string Text(const Tree& t) {
    std::string s;
    for (auto& [n, e] : t) s += n + (e.dir ? "/ " : "=" + std::to_string(e.data.size()) + " ");
    return s;
}
std::string Parent(const std::string& n) {
    size_t k = n.rfind('/');
    return k == std::string::npos ? "" : n.substr(0, k);
}
bool Below(const std::string& n, const std::string& top) { return n.compare(0, top.size() + 1, top + "/") == 0; }
bool UnderFile(const Tree& t, std::string n) {
    for (n = Parent(n); !n.empty(); n = Parent(n)) {
        auto it = t.find(n);
        if (it != t.end() && !it->second.dir) return true;
    }
    return false;
}
void MakeParents(Tree* t, std::string n) {
    for (n = Parent(n); !n.empty(); n = Parent(n)) (*t)[n] = {true, ""};
}
std::vector<std::string> Children(const Tree& t, const std::string& n) {
    std::vector<std::string> out;
    for (auto& [name, e] : t)
        if (name != n && Parent(name) == n) out.push_back(name);
    return out;
}
std::string Spell(Case& c, const std::string& n) {
    std::string p = Root() + (c.Chance(1, 5) ? "//" : "/") + n;
    switch (c.Weighted({6, 1, 1, 1})) {
        case 1: return "file:" + p;
        case 2: return "file://" + p;
        case 3: return "FILE:" + p;
        default: return p;
    }
}
}  // namespace

FACET(tree, 5) {
    Fresh fresh;
    UNWRAP(auto fs, LocalFileSystemFactory().Create(Root(), {}), "factory");
    Tree t;
    static const std::vector<std::string> names = {"a", "b", "d", "d/x", "d/e", "d/e/z", "a/k", "b/.h"};
    int64_t n = c.Len(1, 14);
    int64_t changes = 0;
    for (int64_t i = 0; i < n; i++) {
        std::string name = c.Pick(names);
        std::string path = Spell(c, name);
        bool exists = t.count(name), dir = exists && t[name].dir, blocked = UnderFile(t, name);
        int64_t what = c.Weighted({2, 3, 3, 2, 3, 2, 2, 2, 2, 1});
        c.Log() << "\n" << what << " " << path.substr(path.find(Root()) == std::string::npos ? 0 : path.find(Root()) + Root().size());
        switch (what) {
            case 0: {
                auto r = fs->Exists(path);
                if (blocked) REQUIRE(!r.ok() || !r.value(), "exists-under-file", "");
                else REQUIRE(r.ok() && r.value() == exists, "exists", r.status().ToString());
                break;
            }
            case 1: {
                Status s = fs->Mkdirs(path);
                bool ok = !blocked && (!exists || dir);
                REQUIRE(s.ok() == ok, "mkdirs", s.ToString());
                if (ok) {
                    MakeParents(&t, name);
                    t[name] = {true, ""};
                    changes++;
                }
                break;
            }
            case 2: {
                bool over = c.Bool();
                std::string data = c.Bytes(c.Int(0, 12));
                bool ok = !blocked && !dir && (!exists || over);
                int64_t how = c.Draw(2);
                Status s;
                if (how == 0) {
                    s = fs->WriteFile(path, data, over);
                } else if (how == 1) {
                    ok = !blocked && !exists;
                    s = fs->AtomicStore(path, data);
                } else {
                    auto out = fs->Create(path, over);
                    s = out.status();
                    if (out.ok()) {
                        size_t half = data.size() / 2;
                        UNWRAP(int32_t w1, out.value()->Write(data.data(), half), "write");
                        UNWRAP(int64_t at, out.value()->GetPos(), "write-pos");
                        UNWRAP(int32_t w2, out.value()->Write(data.data() + half, data.size() - half), "write");
                        REQUIRE(w1 + w2 == static_cast<int32_t>(data.size()) && at == static_cast<int64_t>(half), "write-count", "");
                        if (c.Bool()) {
                            REQUIRE_OK(out.value()->Flush(), "flush");
                            REQUIRE(Slurp(Root() + "/" + name) == data, "flushed", "");
                        }
                        REQUIRE_OK(out.value()->Close(), "close");
                    }
                }
                REQUIRE(s.ok() == ok, "create", how << " " << s.ToString());
                if (ok) {
                    MakeParents(&t, name);
                    t[name] = {false, data};
                    changes++;
                }
                break;
            }
            case 3: {
                bool recursive = c.Bool();
                Status s = fs->Delete(path, recursive);
                if (!exists) break;  // nothing to delete
                bool full = dir && !Children(t, name).empty();
                REQUIRE(s.ok() == (recursive || !full), "delete", s.ToString());
                if (s.ok()) {
                    for (auto it = t.begin(); it != t.end();)
                        it = it->first == name || Below(it->first, name) ? t.erase(it) : std::next(it);
                    changes++;
                }
                break;
            }
            case 4: {
                std::string to = c.Pick(names);
                std::string dst = Spell(c, to);
                bool slash = c.Chance(1, 6);
                if (slash) dst += "/";
                c.Log() << " -> " << to;
                Status s = fs->Rename(path, dst);
                bool ok = exists && !t.count(to) && !UnderFile(t, to) && to != name && !Below(to, name) && !(slash && !dir);
                REQUIRE(s.ok() == ok, "rename", s.ToString());
                if (!exists && !blocked) REQUIRE(s.IsNotExist(), "rename-missing", s.ToString());
                if (ok) {
                    MakeParents(&t, to);
                    Tree moved;
                    for (auto it = t.begin(); it != t.end();) {
                        if (it->first == name || Below(it->first, name)) {
                            moved[to + it->first.substr(name.size())] = it->second;
                            it = t.erase(it);
                        } else {
                            ++it;
                        }
                    }
                    t.insert(moved.begin(), moved.end());
                    changes++;
                }
                break;
            }
            case 5: {
                auto r = fs->GetFileStatus(path);
                REQUIRE(r.ok() == exists, "status", r.status().ToString());
                if (!exists && !blocked) REQUIRE(r.status().IsNotExist(), "status-missing", r.status().ToString());
                if (r.ok()) {
                    REQUIRE(r.value()->IsDir() == dir, "status-dir", "");
                    REQUIRE(r.value()->GetPath() == Root() + "/" + name, "status-path", r.value()->GetPath());
                    if (!dir) REQUIRE(static_cast<size_t>(r.value()->GetLen()) == t[name].data.size(), "status-length", r.value()->GetLen());
                    struct stat st;
                    stat((Root() + "/" + name).c_str(), &st);
                    REQUIRE(r.value()->GetModificationTime() == st.st_mtime * 1000, "status-time", "");
                }
                break;
            }
            case 6:
            case 7: {
                std::map<std::string, bool> got;
                Status s;
                size_t kept = c.Draw(1), total = 0;
                if (what == 6) {
                    std::vector<std::unique_ptr<BasicFileStatus>> list(kept);
                    s = fs->ListDir(path, &list);
                    total = list.size();
                    for (size_t k = kept; k < list.size(); k++) got[list[k]->GetPath()] = list[k]->IsDir();
                } else {
                    std::vector<std::unique_ptr<FileStatus>> list(kept);
                    s = fs->ListFileStatus(path, &list);
                    total = list.size();
                    for (size_t k = kept; k < list.size(); k++) {
                        got[list[k]->GetPath()] = list[k]->IsDir();
                        std::string rel = list[k]->GetPath().substr(std::min(list[k]->GetPath().size(), Root().size() + 1));
                        if (!list[k]->IsDir()) REQUIRE(t.count(rel) && static_cast<size_t>(list[k]->GetLen()) == t[rel].data.size(), "list-length", rel);
                    }
                }
                if (blocked) break;
                bool file = exists && !dir;
                REQUIRE(s.ok() == !(file && what == 6), "list", s.ToString());
                if (!s.ok()) break;
                std::map<std::string, bool> want;
                if (file) want[Root() + "/" + name] = false;
                else if (dir)
                    for (auto& k : Children(t, name)) want[Root() + "/" + k] = t[k].dir;
                REQUIRE(got == want && total == kept + want.size(), "list-names", got.size() << " want " << want.size());
                break;
            }
            case 8: {
                std::string content = "x";
                Status s = fs->ReadFile(path, &content);
                REQUIRE(s.ok() == (exists && !dir), "read", s.ToString());
                if (s.ok()) REQUIRE(content == t[name].data, "read-content", content.size());
                break;
            }
            default: {
                std::string other = "oss://b/" + name;
                std::vector<std::unique_ptr<FileStatus>> list;
                REQUIRE(!fs->Exists(other).ok() && !fs->Mkdirs(other).ok() && !fs->Create(other, true).ok() && !fs->Open(other).ok() &&
                            !fs->Delete(other, true).ok() && !fs->ListFileStatus(other, &list).ok() && !fs->GetFileStatus(other).ok() &&
                            !fs->Rename(path, other).ok() && !fs->Rename(other, path).ok(), "scheme", "");
            }
        }
        Tree real = Real();
        for (auto it = real.begin(); it != real.end();) {
            // A step that was refused may leave directories it made on the way, nothing else.
            bool leftover = !t.count(it->first) && it->second.dir;
            if (leftover) t[it->first] = it->second;
            ++it;
        }
        REQUIRE(real == t, "tree", "after " << what << ": " << Text(real) << " want " << Text(t));
    }
    c.NonTrivial(changes >= 3);
}

FACET(reader, 2) {
    Fresh fresh;
    LocalFileSystem fs;
    std::string data = c.Bytes(c.Int(0, 60)), path = Root() + "/f";
    if (c.Chance(1, 8)) data = std::string(9000, 'q') + data;
    REQUIRE_OK(fs.WriteFile(path, data, false), "write");
    UNWRAP(auto in, fs.Open(path), "open");
    int64_t size = data.size(), pos = 0;
    UNWRAP(uint64_t len, in->Length(), "length");
    REQUIRE(static_cast<int64_t>(len) == size, "length-value", len);
    UNWRAP(std::string uri, in->GetUri(), "uri");
    REQUIRE(uri == path, "uri-value", uri);
    int64_t n = c.Len(1, 10);
    c.NonTrivial(n >= 3 && size >= 4);
    for (int64_t i = 0; i < n; i++) {
        std::string buf(80, '#');
        switch (c.Draw(3)) {
            case 0: {
                int64_t want = c.Int(0, 20);
                auto r = in->Read(buf.data(), want);
                c.Log() << " read " << want << "@" << pos;
                REQUIRE(r.ok() == (pos + want <= size), "read", r.status().ToString());
                if (!r.ok()) {  // where it stands now is not said
                    REQUIRE_OK(in->Seek(0, FS_SEEK_SET), "rewind");
                    pos = 0;
                    break;
                }
                REQUIRE(r.value() == want && buf.substr(0, want) == data.substr(pos, want), "read-bytes", pos);
                pos += want;
                break;
            }
            case 1:
            case 2: {
                int64_t want = c.Int(0, 20), off = c.Int(0, size + 2);
                Status s;
                if (c.Bool()) {
                    auto r = in->Read(buf.data(), want, off);
                    s = r.status();
                    if (r.ok()) REQUIRE(r.value() == want, "pread-count", r.value());
                } else {
                    int called = 0;
                    in->ReadAsync(buf.data(), want, off, [&](Status st) {
                        called++;
                        s = st;
                    });
                    REQUIRE(called == 1, "async-called", called);
                }
                c.Log() << " pread " << want << "@" << off;
                REQUIRE(s.ok() == (off + want <= size || want == 0), "pread", s.ToString());
                if (s.ok() && want) REQUIRE(buf.substr(0, want) == data.substr(off, want), "pread-bytes", off);
                REQUIRE(buf.substr(want) == std::string(80 - want, '#'), "pread-over", "");
                break;
            }
            default: {
                int64_t to = c.Int(0, size);
                int64_t how = c.Draw(2);
                REQUIRE_OK(in->Seek(how == 0 ? to : how == 1 ? to - pos : to - size, how == 0 ? FS_SEEK_SET : how == 1 ? FS_SEEK_CUR : FS_SEEK_END), "seek");
                pos = to;
                c.Log() << " seek " << to;
            }
        }
        UNWRAP(int64_t at, in->GetPos(), "pos");
        REQUIRE(at == pos, "pos-value", at << " want " << pos);
    }
    REQUIRE(in->Seek(0, static_cast<SeekOrigin>(3)).IsInvalid(), "seek-origin", "");
    REQUIRE_OK(in->Close(), "close");
    REQUIRE(!in->Read(nullptr, 1).ok(), "read-closed", "");
}

FACET(interrupted, 2) {
    // The n-th step of storing a file fails: the target is there in full or not at all.
    Fresh fresh;
    LocalFileSystem fs;
    std::string dir = c.Bool() ? Root() : Root() + "/s/t";
    std::string path = dir + "/f", data = c.Bytes(c.Int(0, 30));
    bool there = c.Chance(1, 4);
    if (there) REQUIRE_OK(fs.WriteFile(path, "older", false), "write");
    int64_t at = c.Int(0, 40);
    auto hook = IOHook::GetInstance();
    hook->Reset(at, IOHook::Mode::RETURN_ERROR);
    int64_t what = c.Draw(1);
    Status s = what == 0 ? fs.AtomicStore(path, data) : fs.WriteFile(path, data, true);
    bool fired = hook->IOCount() > at;
    hook->Clear();
    c.NonTrivial(fired);
    c.Log() << what << " at " << at << (there ? " there" : "") << ": " << s.ToString();
    bool now = sfs::exists(path);
    if (what == 0) {
        if (there) REQUIRE(!s.ok() && Slurp(path) == "older", "replaced", "");
        else if (s.ok()) REQUIRE(now && Slurp(path) == data, "content", "");
        else REQUIRE(!now, "present-after-error", s.ToString());
    } else if (s.ok()) {
        REQUIRE(now && Slurp(path) == data, "content", "");
    }
    if (!fired) REQUIRE(s.ok() == !(there && what == 0), "no-fault", s.ToString());
    if (fired && what == 1) REQUIRE(!s.ok(), "fault-lost", at);
}
