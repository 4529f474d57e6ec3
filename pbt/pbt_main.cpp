#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <memory>

#include "pbt.h"

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:"
           "handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=6:"
           "quarantine_size_mb=16:max_allocation_size_mb=6000";
}
extern "C" const char* __ubsan_default_options() {
    return "print_stacktrace=1:halt_on_error=1:exitcode=77";
}
extern "C" const char* __tsan_default_options() {
    return "exitcode=66:halt_on_error=1:report_signal_unsafe=0";
}

// there only in a build that counts covered lines
extern "C" int __llvm_profile_write_file(void) __attribute__((weak));

namespace pbt {

std::vector<Facet>& Facets() {
    static std::vector<Facet> f;
    return f;
}

std::string Hex(const std::string& s, size_t max) {
    static const char* d = "0123456789abcdef";
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; i++) {
        o += d[(static_cast<unsigned char>(s[i])) >> 4];
        o += d[(static_cast<unsigned char>(s[i])) & 15];
    }
    if (s.size() > max) {
        o += "..(" + std::to_string(s.size()) + " bytes)";
    }
    return o;
}

namespace {

struct Options {
    uint64_t seed = 1;
    uint64_t cases = 1000;
    int workers = 4;
    double time_cap = 100;
    double shrink_cap = 60;
    int case_cpu = 30;
    int case_wall = 150;
    std::string out;
    std::string replay;
    std::string replay_dir = ".";
    std::string scratch;
    std::string only;
    std::vector<std::pair<std::string, std::string>> known;  // facet, tag
    int retries = 1;
    bool list = false;
    bool verbose = false;
};
Options g;
std::string g_scratch;

double Now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

void RmTree(const std::string& path, bool keep_root) {
    // Only ever called on directories this program created under its scratch root.
    DIR* d = opendir(path.c_str());
    if (d) {
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") {
                continue;
            }
            std::string p = path + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                chmod(p.c_str(), 0700);
                RmTree(p, false);
            } else {
                unlink(p.c_str());
            }
        }
        closedir(d);
    }
    if (!keep_root) {
        rmdir(path.c_str());
    }
}

uint64_t Mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x2545F4914F6CDD1DULL + b);
    r.Next();
    return r.Next();
}

const std::vector<int>& Schedule() {
    static std::vector<int> s;
    if (s.empty()) {
        // Interleave the facets by weight (smooth weighted round robin).
        int total = 0;
        for (auto& f : Facets()) {
            if (g.only.empty() || g.only == f.name) {
                total += f.weight;
            }
        }
        std::vector<int> cur(Facets().size(), 0);
        for (int i = 0; i < total; i++) {
            int best = -1;
            for (size_t k = 0; k < Facets().size(); k++) {
                if (!g.only.empty() && g.only != Facets()[k].name) {
                    continue;
                }
                cur[k] += Facets()[k].weight;
                if (best < 0 || cur[k] > cur[best]) {
                    best = static_cast<int>(k);
                }
            }
            cur[best] -= total;
            s.push_back(best);
        }
    }
    return s;
}

uint64_t SizeOf(uint64_t idx) {
    // small first, then cycling up to large
    uint64_t rounds = idx / Schedule().size();
    if (rounds < 40) {
        return rounds;
    }
    return rounds % 200;
}

struct Outcome {
    bool failed = false;
    bool discarded = false;
    std::string tag;
    std::string msg;
};

Outcome RunCase(const Facet& f, Case& c) {
    Outcome o;
    if (!g_scratch.empty()) {
        RmTree(g_scratch, true);
    }
    try {
        f.fn(c);
    } catch (const Discard&) {
        o.discarded = true;
    } catch (const Failure& e) {
        o.failed = true;
        o.tag = e.tag;
        o.msg = e.msg;
    } catch (const std::exception& e) {
        o.failed = true;
        o.tag = "uncaught-exception";
        o.msg = e.what();
    }
    return o;
}

bool IsKnown(const std::string& facet, const std::string& tag) {
    for (auto& k : g.known) {
        if (k.first == facet && k.second == tag) {
            return true;
        }
    }
    return false;
}

struct Shared {
    volatile uint64_t cur;      // case index in progress + 1, 0 when idle
    volatile uint64_t done;     // number of completed cases
    volatile uint64_t failed;   // failing case index + 1
};

std::string JsonEsc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += static_cast<char>(ch);
        } else if (ch == '\n') {
            o += "\\n";
        } else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else {
            o += static_cast<char>(ch);
        }
    }
    return o;
}

void WriteFile(const std::string& p, const std::string& s) {
    std::ofstream f(p, std::ios::binary);
    f << s;
}
std::string ReadFile(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

void ArmCpu(int seconds) {
    itimerval tv{};
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

// ---- worker ---------------------------------------------------------------
void Worker(int w, Shared* sh, const std::string& base, uint64_t start) {
    std::ofstream hashes(base + ".hash", std::ios::binary | std::ios::app);
    std::map<std::string, uint64_t> labels;
    std::map<std::string, uint64_t> facet_cases;
    std::map<std::string, uint64_t> known_hits;
    uint64_t evals = 0, cases = 0, discards = 0, nontrivial = 0;
    std::vector<std::string> samples;
    std::set<std::string> sampled;
    auto flush = [&]() {
        std::ofstream o(base + ".stat." + std::to_string(start));
        o << "evals " << evals << "\ncases " << cases << "\ndiscards " << discards
          << "\nnontrivial " << nontrivial << "\n";
        for (auto& l : labels) {
            o << "label " << l.second << " " << l.first << "\n";
        }
        for (auto& l : facet_cases) {
            o << "facet " << l.second << " " << l.first << "\n";
        }
        for (auto& l : known_hits) {
            o << "known " << l.second << " " << l.first << "\n";
        }
        for (auto& s : samples) {
            o << "sample " << JsonEsc(s) << "\n";
        }
        hashes.flush();
    };
    double t0 = Now();
    double last_flush = t0;
    for (uint64_t idx = start; idx < g.cases; idx += static_cast<uint64_t>(g.workers)) {
        if ((cases & 15) == 0) {
            double now = Now();
            if (now - t0 > g.time_cap) {
                break;
            }
            if (now - last_flush > 1) {
                flush();
                last_flush = now;
            }
        }
        const Facet& f = Facets()[Schedule()[idx % Schedule().size()]];
        sh->cur = idx + 1;
        ArmCpu(g.case_cpu);
        Case c(Mix(g.seed, idx), SizeOf(idx));
        Outcome o = RunCase(f, c);
        ArmCpu(0);
        if (o.failed) {
            if (IsKnown(f.name, o.tag)) {
                known_hits[std::string(f.name) + " " + o.tag]++;
            } else {
                sh->failed = idx + 1;
                flush();
                _exit(3);
            }
        }
        sh->cur = 0;
        sh->done = sh->done + 1;
        cases++;
        facet_cases[f.name]++;
        evals += c.evals_;
        if (o.discarded) {
            discards++;
            continue;
        }
        for (auto& l : c.labels_) {
            labels[std::string(f.name) + ": " + l]++;
        }
        if (c.nontrivial_) {
            nontrivial++;
            uint64_t h = 1469598103934665603ULL ^ Mix(17, static_cast<uint64_t>(&f - &Facets()[0]));
            for (uint64_t v : c.rec_) {
                h = (h ^ v) * 1099511628211ULL;
                h ^= h >> 29;
            }
            hashes.write(reinterpret_cast<const char*>(&h), 8);
            if (sampled.size() < 64 && c.log_.tellp() > 0 && cases > 20 &&
                sampled.insert(f.name).second) {
                std::string s = c.log_.str();
                if (s.size() > 600) {
                    s = s.substr(0, 600) + " ...";
                }
                samples.push_back(std::string(f.name) + " (case " + std::to_string(idx) + "): " + s);
            }
        }
    }
    flush();
    if (__llvm_profile_write_file != nullptr) __llvm_profile_write_file();
    _exit(0);
}

// ---- running one choice sequence in a child ----------------------------------
struct ChildResult {
    bool failed = false;
    std::string tag;
    std::string msg;
    std::vector<uint64_t> rec;
    std::string log;
};

volatile uint64_t* g_tap = nullptr;

ChildResult RunChildOnce(const Facet& f, const std::vector<uint64_t>* choices, uint64_t seed,
                         uint64_t size, int cpu, int wall, bool want_text) {
    std::string base = g.scratch + "/child";
    unlink((base + ".res").c_str());
    unlink((base + ".err").c_str());
    if (!g_tap) {
        g_tap = static_cast<volatile uint64_t*>(mmap(nullptr, (Case::kTapMax + 1) * 8,
                                                     PROT_READ | PROT_WRITE,
                                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    g_tap[0] = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0);
        int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        g_scratch = g.scratch + "/cs";
        mkdir(g_scratch.c_str(), 0700);
        ArmCpu(cpu);
        std::unique_ptr<Case> c(choices ? new Case(*choices, size) : new Case(seed, size));
        c->tap_ = g_tap;
        Outcome o = RunCase(f, *c);
        ArmCpu(0);
        std::ofstream s(base + ".res", std::ios::binary);
        s << (o.failed ? "F" : (o.discarded ? "D" : "P")) << "\n" << o.tag << "\n" << o.msg;
        s.close();
        WriteFile(base + ".log", c->log_.str());
        _exit(o.failed ? 3 : 0);
    }
    int status = 0;
    double t0 = Now();
    bool hung = false;
    for (;;) {
        pid_t r = waitpid(p, &status, WNOHANG);
        if (r == p) {
            break;
        }
        if (Now() - t0 > wall) {
            kill(-p, SIGKILL);
            kill(p, SIGKILL);
            waitpid(p, &status, 0);
            hung = true;
            break;
        }
        usleep(300);
    }
    kill(-p, SIGKILL);
    ChildResult cr;
    cr.rec.assign(g_tap + 1, g_tap + 1 + g_tap[0]);
    if (hung) {
        cr.failed = true;
        cr.tag = "hang";
        cr.msg = "no progress within the wall-clock allowance";
        return cr;
    }
    if (WIFSIGNALED(status)) {
        cr.failed = true;
        cr.tag = WTERMSIG(status) == SIGPROF ? "endless-loop" : "crash";
        cr.msg = "killed by signal " + std::to_string(WTERMSIG(status));
    } else if (WEXITSTATUS(status) == 77 || WEXITSTATUS(status) == 66) {
        cr.failed = true;
        cr.tag = "sanitizer";
        cr.msg = "sanitizer report";
    } else if (WEXITSTATUS(status) == 3) {
        std::ifstream r(base + ".res", std::ios::binary);
        std::string kind;
        std::getline(r, kind);
        std::getline(r, cr.tag);
        std::stringstream ss;
        ss << r.rdbuf();
        cr.msg = ss.str();
        cr.failed = true;
    } else if (WEXITSTATUS(status) != 0) {
        cr.failed = true;
        cr.tag = "exit-" + std::to_string(WEXITSTATUS(status));
        cr.msg = "unexpected exit";
    }
    if (want_text) {
        cr.log = ReadFile(base + ".log");
        if (cr.failed && (cr.tag == "sanitizer" || cr.tag == "crash" || cr.tag == "endless-loop")) {
            std::string e = ReadFile(base + ".err");
            if (e.size() > 5000) {
                e = e.substr(0, 5000);
            }
            cr.msg += "\n" + e;
        }
    }
    return cr;
}

// Schedule-dependent facets are given several tries to show the failure again.
ChildResult RunChild(const Facet& f, const std::vector<uint64_t>* choices, uint64_t seed,
                     uint64_t size, int cpu, int wall, bool want_text) {
    ChildResult r;
    for (int i = 0; i < g.retries; i++) {
        r = RunChildOnce(f, choices, seed, size, cpu, wall, want_text);
        if (r.failed) {
            break;
        }
    }
    return r;
}

std::string Encode(const Facet& f, uint64_t size, const std::vector<uint64_t>& ch) {
    std::ostringstream o;
    o << "facet " << f.name << "\nsize " << size << "\nchoices " << ch.size() << "\n";
    for (size_t i = 0; i < ch.size(); i++) {
        o << ch[i] << (i % 16 == 15 ? "\n" : " ");
    }
    o << "\n";
    return o.str();
}

}  // namespace

bool SurvivesInChild(const std::function<void()>& f) {
    pid_t p = fork();
    if (p == 0) {
        signal(SIGABRT, SIG_DFL);
        signal(SIGSEGV, SIG_DFL);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        dup2(n, 2);
        alarm(20);
        try {
            f();
        } catch (...) {
            _exit(3);
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

std::string ScratchDir() {
    return g_scratch;
}

static std::vector<uint64_t> Shrink(const Facet& f, std::vector<uint64_t> best, uint64_t size,
                                    const std::string& tag, int cpu, int wall) {
    double t0 = Now();
    int execs = 0;
    auto budget = [&]() { return Now() - t0 < g.shrink_cap && execs < 20000; };
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        execs++;
        ChildResult r = RunChild(f, &cand, 0, size, cpu, wall, false);
        if (r.failed && r.tag == tag) {
            if (!r.rec.empty() && r.rec.size() < cand.size()) {
                best = r.rec;
            } else {
                best = cand;
            }
            while (!best.empty() && best.back() == 0) {
                best.pop_back();
            }
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && budget()) {
        progress = false;
        // delete blocks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && budget(); len /= 2) {
            for (size_t i = 0; i + len <= best.size() && budget();) {
                std::vector<uint64_t> cand = best;
                cand.erase(cand.begin() + static_cast<long>(i),
                           cand.begin() + static_cast<long>(i + len));
                if (attempt(cand)) {
                    progress = true;
                } else {
                    i += len;
                }
            }
            if (len == 1) {
                break;
            }
        }
        // delete a block and lower the preceding count
        for (size_t len : {1, 2, 3, 4, 6, 8}) {
            for (size_t i = 0; i < best.size() && budget(); i++) {
                if (best[i] == 0 || best[i] > 4096) {
                    continue;
                }
                for (size_t j = i + 1; j + len <= best.size() && j < i + 24 && budget(); j++) {
                    std::vector<uint64_t> cand = best;
                    cand[i]--;
                    cand.erase(cand.begin() + static_cast<long>(j),
                               cand.begin() + static_cast<long>(j + len));
                    if (attempt(cand)) {
                        progress = true;
                        break;
                    }
                }
            }
        }
        // zero blocks
        for (size_t len = 8; len >= 1 && budget(); len /= 2) {
            for (size_t i = 0; i + len <= best.size() && budget(); i += len) {
                bool any = false;
                for (size_t k = i; k < i + len; k++) {
                    any = any || best[k] != 0;
                }
                if (!any) {
                    continue;
                }
                std::vector<uint64_t> cand = best;
                for (size_t k = i; k < i + len; k++) {
                    cand[k] = 0;
                }
                if (attempt(cand)) {
                    progress = true;
                }
            }
            if (len == 1) {
                break;
            }
        }
        // lower single values by bisection
        for (size_t i = 0; i < best.size() && budget(); i++) {
            uint64_t lo = 0, hi = best[i];
            while (lo < hi && budget() && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> cand = best;
                cand[i] = mid;
                if (attempt(cand)) {
                    progress = true;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    return best;
}

static int Replay() {
    std::ifstream in(g.replay);
    if (!in) {
        std::cerr << "cannot read " << g.replay << "\n";
        return 2;
    }
    std::string line, facet;
    uint64_t size = 0, n = 0, seed = 0;
    bool seeded = false;
    std::vector<uint64_t> ch;
    while (in >> line) {
        if (line == "facet") {
            in >> facet;
        } else if (line == "size") {
            in >> size;
        } else if (line == "seed") {
            in >> seed;
            seeded = true;
        } else if (line == "choices") {
            in >> n;
            ch.resize(n);
            for (auto& v : ch) {
                in >> v;
            }
        } else if (line == "---") {
            break;
        } else {
            std::getline(in, line);
        }
    }
    for (auto& f : Facets()) {
        if (facet == f.name) {
            ChildResult r = RunChild(f, seeded ? nullptr : &ch, seed, size, g.case_cpu, g.case_wall,
                                     true);
            std::cout << (r.failed ? "FAIL " : "PASS ") << facet << " " << r.tag << "\n"
                      << r.msg << "\n"
                      << r.log << "\n";
            return r.failed ? 1 : 0;
        }
    }
    std::cerr << "unknown facet " << facet << "\n";
    return 2;
}

int Main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") {
            g.seed = strtoull(next().c_str(), nullptr, 10);
        } else if (a == "--cases") {
            g.cases = strtoull(next().c_str(), nullptr, 10);
        } else if (a == "--workers") {
            g.workers = atoi(next().c_str());
        } else if (a == "--time-cap") {
            g.time_cap = atof(next().c_str());
        } else if (a == "--shrink-cap") {
            g.shrink_cap = atof(next().c_str());
        } else if (a == "--case-cpu") {
            g.case_cpu = atoi(next().c_str());
        } else if (a == "--case-wall") {
            g.case_wall = atoi(next().c_str());
        } else if (a == "--out") {
            g.out = next();
        } else if (a == "--replay") {
            g.replay = next();
        } else if (a == "--replay-to") {
            g.replay_dir = next();
        } else if (a == "--scratch") {
            g.scratch = next();
        } else if (a == "--only") {
            g.only = next();
        } else if (a == "--known") {
            std::string k = next();
            size_t p = k.find(':');
            g.known.push_back({k.substr(0, p), k.substr(p + 1)});
        } else if (a == "--retries") {
            g.retries = atoi(next().c_str());
        } else if (a == "--list") {
            g.list = true;
        }
    }
    if (g.list) {
        for (auto& f : Facets()) {
            std::cout << f.name << " " << f.weight << "\n";
        }
        return 0;
    }
    char tmpl[] = "/tmp/pbt-XXXXXX";
    if (g.scratch.empty()) {
        g.scratch = mkdtemp(tmpl);
    } else {
        g.scratch += "/pbt-XXXXXX";
        std::vector<char> b(g.scratch.begin(), g.scratch.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) {
            std::cerr << "cannot create scratch dir\n";
            return 2;
        }
        g.scratch = b.data();
    }
    signal(SIGPIPE, SIG_IGN);
    struct Cleanup {
        ~Cleanup() {
            RmTree(g.scratch, false);
        }
    } cleanup;
    if (!g.replay.empty()) {
        return Replay();
    }
    if (Schedule().empty()) {
        std::cerr << "no facets\n";
        return 2;
    }

    Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * static_cast<size_t>(g.workers),
                                           PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(reinterpret_cast<void*>(sh), 0, sizeof(Shared) * static_cast<size_t>(g.workers));
    double t0 = Now();
    std::vector<pid_t> pids(static_cast<size_t>(g.workers));
    auto base_of = [&](int w) { return g.scratch + "/w" + std::to_string(w); };
    auto spawn = [&](int w, uint64_t start) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            setpgid(0, 0);
            int fd = open((base_of(w) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            dup2(fd, 1);
            g_scratch = base_of(w) + ".d";
            mkdir(g_scratch.c_str(), 0700);
            Worker(w, &sh[w], base_of(w), start);
            _exit(0);
        }
        pids[static_cast<size_t>(w)] = p;
    };
    for (int w = 0; w < g.workers; w++) {
        spawn(w, static_cast<uint64_t>(w));
    }
    int64_t fail_idx = -1;
    std::string fail_how;
    std::map<std::string, uint64_t> known_hits;
    std::vector<std::pair<uint64_t, double>> last(static_cast<size_t>(g.workers), {0, Now()});
    int alive = g.workers;
    while (alive > 0 && fail_idx < 0) {
        int status = 0;
        pid_t p = waitpid(-1, &status, WNOHANG);
        if (p > 0) {
            for (int w = 0; w < g.workers; w++) {
                if (pids[static_cast<size_t>(w)] != p) {
                    continue;
                }
                pids[static_cast<size_t>(w)] = 0;
                alive--;
                kill(-p, SIGKILL);
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                    break;
                }
                uint64_t idx = sh[w].failed ? sh[w].failed : sh[w].cur;
                if (idx == 0) {
                    std::cerr << "worker died outside a case (status " << status << ")\n"
                              << ReadFile(base_of(w) + ".err");
                    return 2;
                }
                // A crash: is it a known one?
                if (!sh[w].failed) {
                    const Facet& f = Facets()[Schedule()[(idx - 1) % Schedule().size()]];
                    std::string tag = WIFSIGNALED(status)
                                          ? (WTERMSIG(status) == SIGPROF ? "endless-loop" : "crash")
                                          : "sanitizer";
                    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
                        std::cerr << "worker killed (out of memory?) in case " << idx - 1 << "\n";
                        return 2;
                    }
                    if (IsKnown(f.name, tag)) {
                        known_hits[std::string(f.name) + " " + tag]++;
                        sh[w].cur = 0;
                        spawn(w, idx - 1 + static_cast<uint64_t>(g.workers));
                        alive++;
                        break;
                    }
                }
                fail_idx = static_cast<int64_t>(idx - 1);
                fail_how = ReadFile(base_of(w) + ".err");
            }
        } else {
            usleep(2000);
            for (int w = 0; w < g.workers; w++) {
                auto& l = last[static_cast<size_t>(w)];
                uint64_t cur = sh[w].cur;
                if (cur != l.first || cur == 0) {
                    l = {cur, Now()};
                } else if (pids[static_cast<size_t>(w)] && Now() - l.second > g.case_wall) {
                    fail_idx = static_cast<int64_t>(cur - 1);
                    fail_how = "hang";
                    break;
                }
            }
        }
    }
    for (pid_t p : pids) {
        if (p > 0) {
            kill(-p, SIGKILL);
            kill(p, SIGKILL);
            waitpid(p, nullptr, 0);
        }
    }

    // ---- merge statistics -----------------------------------------------------
    uint64_t evals = 0, cases = 0, discards = 0, nontrivial = 0;
    std::map<std::string, uint64_t> labels, facet_cases;
    std::vector<std::string> samples;
    std::set<std::string> sampled;
    std::set<uint64_t> hashes;
    if (DIR* d = opendir(g.scratch.c_str())) {
        std::vector<std::string> names;
        while (dirent* e = readdir(d)) {
            names.push_back(e->d_name);
        }
        closedir(d);
        std::sort(names.begin(), names.end());
        for (auto& n : names) {
            if (n.find(".stat.") != std::string::npos) {
                std::ifstream in(g.scratch + "/" + n);
                std::string k;
                uint64_t v;
                std::string rest;
                while (in >> k) {
                    if (k == "sample") {
                        std::getline(in, rest);
                        std::string fn = rest.substr(1, rest.find(' ', 1) - 1);
                        if (sampled.insert(fn).second) {
                            samples.push_back(rest.substr(1));
                        }
                        continue;
                    }
                    in >> v;
                    if (k == "evals") {
                        evals += v;
                    } else if (k == "cases") {
                        cases += v;
                    } else if (k == "discards") {
                        discards += v;
                    } else if (k == "nontrivial") {
                        nontrivial += v;
                    } else {
                        std::getline(in, rest);
                        rest = rest.substr(1);
                        if (k == "label") {
                            labels[rest] += v;
                        } else if (k == "facet") {
                            facet_cases[rest] += v;
                        } else if (k == "known") {
                            known_hits[rest] += v;
                        }
                    }
                }
            } else if (n.size() > 5 && n.substr(n.size() - 5) == ".hash") {
                std::string s = ReadFile(g.scratch + "/" + n);
                for (size_t i = 0; i + 8 <= s.size(); i += 8) {
                    uint64_t h;
                    memcpy(&h, s.data() + i, 8);
                    hashes.insert(h);
                }
            }
        }
    }

    std::string fail_json = "null";
    int rc = 0;
    if (fail_idx >= 0) {
        uint64_t idx = static_cast<uint64_t>(fail_idx);
        const Facet& f = Facets()[Schedule()[idx % Schedule().size()]];
        uint64_t size = SizeOf(idx), seed = Mix(g.seed, idx);
        std::cerr << "case " << idx << " of facet " << f.name << " fails; minimising\n";
        ChildResult first = RunChild(f, nullptr, seed, size, g.case_cpu, g.case_wall, true);
        std::string replay_text;
        ChildResult fin = first;
        int cpu = g.case_cpu, wall = g.case_wall;
        if (!first.failed) {
            // Did not repeat in a fresh process: report it as unstable, not as a violation.
            std::cerr << "case " << idx << " did not fail when run again in a fresh process\n"
                      << fail_how << "\n";
            fail_json = "{\"facet\":\"" + std::string(f.name) + "\",\"unstable\":true,\"case\":" +
                        std::to_string(idx) + ",\"msg\":\"" + JsonEsc(fail_how.substr(0, 4000)) +
                        "\"}";
            rc = 4;
        } else {
            if (first.tag == "endless-loop" || first.tag == "hang") {
                cpu = 5;
                wall = first.tag == "hang" ? 20 : 60;
            }
            if (!first.rec.empty()) {
                std::vector<uint64_t> ch = first.rec;
                ChildResult again = RunChild(f, &ch, 0, size, cpu, wall, true);
                if (again.failed && again.tag == first.tag) {
                    ch = Shrink(f, ch, size, first.tag, cpu, wall);
                    fin = RunChild(f, &ch, 0, size, cpu, wall, true);
                    replay_text = Encode(f, size, ch);
                }
            }
            if (replay_text.empty()) {
                std::ostringstream o;
                o << "facet " << f.name << "\nseed " << seed << "\nsize " << size << "\n";
                replay_text = o.str();
                fin = first;
            }
            mkdir(g.replay_dir.c_str(), 0755);
            std::string path = g.replay_dir + "/" + f.name + "-" + std::to_string(g.seed) + "-" +
                               std::to_string(idx) + ".replay";
            WriteFile(path, replay_text + "---\ntag " + fin.tag + "\n" + fin.msg + "\n\ncase:\n" +
                                fin.log + "\n");
            g.replay = path;
            int bad = 0;
            for (int k = 0; k < 3; k++) {
                std::streambuf* old = std::cout.rdbuf();
                std::ostringstream sink;
                std::cout.rdbuf(sink.rdbuf());
                bad += Replay() == 1 ? 1 : 0;
                std::cout.rdbuf(old);
            }
            fail_json = "{\"facet\":\"" + std::string(f.name) + "\",\"tag\":\"" + JsonEsc(fin.tag) +
                        "\",\"msg\":\"" + JsonEsc(fin.msg) + "\",\"log\":\"" +
                        JsonEsc(fin.log.substr(0, 3000)) + "\",\"replay\":\"" + JsonEsc(path) +
                        "\",\"replayed\":" + std::to_string(bad) + "}";
            rc = bad == 3 ? 1 : 4;
        }
    }
    std::ostringstream o;
    o << "{\"cases\":" << cases << ",\"evaluations\":" << evals << ",\"discards\":" << discards
      << ",\"nontrivial\":" << nontrivial << ",\"distinct_nontrivial\":" << hashes.size()
      << ",\"requested\":" << g.cases << ",\"wall\":" << (Now() - t0) << ",\"facets\":{";
    bool sep = false;
    for (auto& l : facet_cases) {
        o << (sep ? "," : "") << "\"" << JsonEsc(l.first) << "\":" << l.second;
        sep = true;
    }
    o << "},\"labels\":{";
    sep = false;
    for (auto& l : labels) {
        o << (sep ? "," : "") << "\"" << JsonEsc(l.first) << "\":" << l.second;
        sep = true;
    }
    o << "},\"known\":{";
    sep = false;
    for (auto& l : known_hits) {
        o << (sep ? "," : "") << "\"" << JsonEsc(l.first) << "\":" << l.second;
        sep = true;
    }
    o << "},\"samples\":[";
    sep = false;
    for (auto& s : samples) {
        o << (sep ? "," : "") << "\"" << s << "\"";
        sep = true;
    }
    o << "],\"failure\":" << fail_json << "}\n";
    if (g.out.empty()) {
        std::cout << o.str();
    } else {
        WriteFile(g.out, o.str());
    }
    return rc;
}

}  // namespace pbt

int main(int argc, char** argv) {
    return pbt::Main(argc, argv);
}
