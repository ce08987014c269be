// A small stateless model checker for the real code.
//
// A "space" is a finite tree of executions: the harness body takes a task number and asks choose(n) wherever the
// environment (caller, allocator, scheduler) has n alternatives; the engine runs the body once for every leaf of the
// tree (depth-first, choice 0 first), so everything inside the stated bounds is executed on the implementation.
// Tasks of all spaces are spread over forked workers. The path being executed is kept in shared memory, so that a
// crash, sanitizer report, assertion, oracle failure or hang is attributed to one path; the parent re-executes that path
// alone in a fresh process before anything is reported, and writes it out as a replayable artefact.
#pragma once
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

void mc_spaces(const std::string& property);
namespace mc {

constexpr int kMaxDepth = 4000;
constexpr int kMaxSpaces = 256;
constexpr int kMaxWorkers = 64;

struct Choice { uint16_t c, n; };

struct SpaceDef {
    std::string prop, name;
    int tiers;  // 1 quick, 2 thorough, 3 both
    uint64_t ntasks;
    std::function<void(uint64_t)> body;
};

struct WorkerShm {
    std::atomic<uint64_t> beat;  // number of the path being executed
    std::atomic<int> space;
    std::atomic<uint64_t> task;
    std::atomic<int> len;
    Choice path[kMaxDepth];
};
struct SpaceStat {
    std::atomic<uint64_t> tasks, paths, steps, states, pruned, maxdepth, micros;
};
struct Shm {
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    std::atomic<uint64_t> outcome_bits;
    SpaceStat st[kMaxSpaces];
    WorkerShm w[kMaxWorkers];
};

inline Shm* shm;
inline std::atomic<uint64_t>* table;  // distinct canonical states, shared by all workers
inline uint64_t table_mask;
inline std::vector<SpaceDef>& spaces() { static std::vector<SpaceDef> s; return s; }
inline int wid = 0, pos = 0, cur_space = 0;
inline bool replaying = false, enumerating = false;
inline std::string notes;
inline bool is_thorough = false;
inline uint64_t env_seed = 1;

inline bool thorough() { return is_thorough; }

[[noreturn]] inline void die(int code) { fflush(nullptr); _exit(code); }

// Reports that the property is broken on the current path.
[[noreturn, gnu::format(printf, 1, 2)]] inline void fail(const char* f, ...) {
    char buf[4000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    fprintf(stderr, "\nPROPERTY-FAILURE: %s\n", buf);
    die(43);
}
[[noreturn, gnu::format(printf, 1, 2)]] inline void internal(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    fprintf(stderr, "\nCHECKER-ERROR: ");
    vfprintf(stderr, f, ap);
    va_end(ap);
    fputc('\n', stderr);
    die(44);
}
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)

// Text of the history, produced only when a path is replayed.
#define MC_NOTE(...) do { if (::mc::replaying) ::mc::note_(__VA_ARGS__); } while (0)
[[gnu::format(printf, 1, 2)]] inline void note_(const char* f, ...) {
    char buf[2000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    fprintf(stderr, "NOTE %s\n", buf);
}

inline int choose(int n) {
    if (n <= 0) internal("choose(%d)", n);
    WorkerShm& w = shm->w[wid];
    int len = w.len.load(std::memory_order_relaxed);
    if (pos < len) {
        Choice& ch = w.path[pos];
        if (ch.n == 0) ch.n = uint16_t(n);  // replay of a recorded path
        if (ch.n != n || ch.c >= n) internal("divergence while re-executing a prefix: choice %d had %d alternatives, now %d", pos, ch.n, n);
        return w.path[pos++].c;
    }
    if (pos >= kMaxDepth || n > 65535) internal("choice tree too deep or too wide");
    w.path[pos] = {0, uint16_t(n)};
    w.len.store(++pos, std::memory_order_relaxed);
    return 0;
}
inline void step(uint64_t k = 1) { shm->st[cur_space].steps.fetch_add(k, std::memory_order_relaxed); }

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
struct Hash {
    uint64_t h = 0x12345;
    Hash& add(uint64_t v) { h = mix(h ^ mix(v)); return *this; }
    Hash& bytes(const void* p, size_t n) {
        add(n);
        auto* b = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; i += 8) {
            uint64_t v = 0;
            memcpy(&v, b + i, n - i < 8 ? n - i : 8);
            add(v);
        }
        return *this;
    }
    Hash& str(const std::string& s) { return bytes(s.data(), s.size()); }
};
// true when the canonical state is new
inline bool insert_state(uint64_t h) {
    if (replaying) return true;
    uint64_t key = mix(h ^ (uint64_t(cur_space) << 56)) | 1;
    for (uint64_t i = key >> 7, k = 0; k < 512; ++k, ++i) {
        auto& s = table[i & table_mask];
        uint64_t v = s.load(std::memory_order_relaxed);
        if (v == key) return false;
        if (v == 0) {
            uint64_t z = 0;
            if (s.compare_exchange_strong(z, key, std::memory_order_relaxed)) return true;
            if (z == key) return false;
        }
    }
    return true;  // table full around here: explore, do not count twice too often
}
// Counts a distinct state reached.
inline void state(uint64_t h) {
    if (insert_state(h)) shm->st[cur_space].states.fetch_add(1, std::memory_order_relaxed);
}
inline void state(const Hash& h) { state(h.h); }
// Explicit-state pruning: true when this state was already expanded with this much depth left.
inline bool seen(uint64_t h, int depth_left) {
    if (replaying) return false;
    if (pos < shm->w[wid].len.load(std::memory_order_relaxed)) return false;  // on the way to an unexplored branch
    state(h);
    if (insert_state(mix(h) + 0x5555 + uint64_t(depth_left) * 0x1357)) return false;
    shm->st[cur_space].pruned.fetch_add(1, std::memory_order_relaxed);
    return true;
}

struct Add {
    Add(const char* prop, const char* name, uint64_t ntasks, std::function<void(uint64_t)> f, int tiers = 3) {
        spaces().push_back({prop, name, tiers, ntasks, std::move(f)});
    }
};
inline void add(const char* prop, std::string name, uint64_t ntasks, std::function<void(uint64_t)> f) {
    spaces().push_back({prop, std::move(name), 3, ntasks, std::move(f)});
}

inline std::function<void()>& path_begin() { static std::function<void()> f; return f; }
inline std::function<void()>& path_end() { static std::function<void()> f; return f; }

inline void run_one(int sp, uint64_t task) {
    pos = 0;
    if (path_begin()) path_begin()();
    spaces()[size_t(sp)].body(task);
    if (path_end()) path_end()();
}
inline bool advance(WorkerShm& w) {
    int n = w.len.load(std::memory_order_relaxed);
    while (n > 0 && w.path[n - 1].c + 1 >= w.path[n - 1].n) --n;
    w.len.store(n, std::memory_order_relaxed);
    if (n == 0) return false;
    w.path[n - 1].c++;
    return true;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

inline void run_task(int sp, uint64_t task) {
    WorkerShm& w = shm->w[wid];
    cur_space = sp;
    w.space = sp;
    w.task = task;
    w.len.store(0, std::memory_order_relaxed);
    auto& st = shm->st[sp];
    uint64_t paths = 0, maxd = 0;
    double t0 = now();
    do {
        w.beat.fetch_add(1, std::memory_order_relaxed);
        run_one(sp, task);
        ++paths;
        if (uint64_t(pos) > maxd) maxd = uint64_t(pos);
        int len = w.len.load(std::memory_order_relaxed);
        if (pos < len) internal("execution ended before its recorded prefix");
    } while (advance(w) && shm->stop.load(std::memory_order_relaxed) == 0);
    st.paths += paths;
    st.tasks += 1;
    st.micros += uint64_t((now() - t0) * 1e6);
    uint64_t o = st.maxdepth.load();
    while (o < maxd && !st.maxdepth.compare_exchange_weak(o, maxd)) {}
}

struct Outcome { bool failed = false, hang = false, checker_error = false; std::string err; int status = 0; };

inline std::string read_fd(int fd) {
    std::string s;
    char b[8192];
    lseek(fd, 0, SEEK_SET);
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0 && s.size() < 400000) s.append(b, size_t(k));
    return s;
}
// Executes f in a fresh process with stderr captured.
inline Outcome isolated(const std::function<void()>& f, double limit) {
    Outcome o;
    int fd = memfd_create("mc", 0);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        dup2(fd, 2);
        dup2(fd, 1);
        f();
        die(0);
    }
    double t0 = now();
    int st = 0;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            o.hang = true;
            break;
        }
        usleep(2000);
    }
    o.err = read_fd(fd);
    close(fd);
    o.status = st;
    o.failed = o.hang || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    o.checker_error = !o.hang && WIFEXITED(st) && WEXITSTATUS(st) == 44;
    return o;
}
inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
inline std::string clean_err(const std::string& e, size_t cap = 6000) {
    return e.size() <= cap ? e : e.substr(0, cap) + "\n...";
}
inline std::string headline(const Outcome& o) {
    if (o.hang) return "execution does not terminate";
    for (const char* key : {"PROPERTY-FAILURE: ", "CHECKER-ERROR: ", "ERROR: AddressSanitizer: ", "runtime error: ", "Assertion `", "terminate called"}) {
        size_t p = o.err.find(key);
        if (p != std::string::npos) {
            size_t b = o.err.rfind('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            size_t e = o.err.find('\n', p);
            return o.err.substr(b, std::min<size_t>(e == std::string::npos ? o.err.size() - b : e - b, 600));
        }
    }
    char buf[100];
    if (WIFSIGNALED(o.status)) snprintf(buf, sizeof buf, "killed by signal %d", WTERMSIG(o.status));
    else snprintf(buf, sizeof buf, "exit status %d", WEXITSTATUS(o.status));
    return buf;
}
inline std::vector<std::string> note_lines(const std::string& e) {
    std::vector<std::string> v;
    size_t p = 0;
    while (p < e.size()) {
        size_t q = e.find('\n', p);
        if (q == std::string::npos) q = e.size();
        if (e.compare(p, 5, "NOTE ") == 0) v.push_back(e.substr(p + 5, q - p - 5));
        p = q + 1;
    }
    return v;
}

inline Outcome replay_path(int sp, uint64_t task, const std::vector<int>& path, double limit) {
    return isolated([&] {
        replaying = true;
        wid = kMaxWorkers - 1;
        cur_space = sp;
        WorkerShm& w = shm->w[wid];
        w.len = int(path.size());
        for (size_t i = 0; i < path.size(); ++i) w.path[i] = {uint16_t(path[i]), 0};  // alternatives are re-learnt
        run_one(sp, task);
    }, limit);
}

inline int main_(int argc, char** argv) {
    std::string prop, tier = "quick", out, replay, only;
    int workers = 8;
    bool list = false;
    double hang = 40;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--prop") prop = val();
        else if (a == "--tier") tier = val();
        else if (a == "--out") out = val();
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--replay") replay = val();  // "space:task:c,c,c"
        else if (a == "--only") only = val();
        else if (a == "--hang") hang = atof(argv[++i]);
        else if (a == "--list") list = true;
        else if (a == "--noaslr") { }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    bool aslr_off = false;
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--noaslr") aslr_off = true;
    if (!aslr_off) {
        int p = personality(0xffffffff);
        if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) >= 0) {
            std::vector<char*> av(argv, argv + argc);
            static char flag[] = "--noaslr";
            av.push_back(flag);
            av.push_back(nullptr);
            execv("/proc/self/exe", av.data());
        }
    }
    is_thorough = tier == "thorough";
    mc_spaces(prop);
    auto& S = spaces();
    if (list) {
        for (auto& s : S) printf("%s %s %lu\n", s.prop.c_str(), s.name.c_str(), (unsigned long)s.ntasks);
        return 0;
    }
    std::vector<int> sel;
    for (size_t i = 0; i < S.size(); ++i)
        if (S[i].prop == prop && (only.empty() || S[i].name.find(only) != std::string::npos)) sel.push_back(int(i));
    if (sel.empty() || S.size() > kMaxSpaces) { fprintf(stderr, "no spaces for property %s\n", prop.c_str()); return 2; }

    shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    uint64_t tsize = uint64_t(1) << (is_thorough ? 27 : 24);
    table_mask = tsize - 1;
    table = static_cast<std::atomic<uint64_t>*>(
      mmap(nullptr, tsize * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));

    if (!replay.empty()) {
        size_t a = replay.find('@');
        std::string sn = replay.substr(0, a);
        size_t b = replay.find('@', a + 1);
        uint64_t task = strtoull(replay.c_str() + a + 1, nullptr, 10);
        std::vector<int> path;
        const char* q = replay.c_str() + b + 1;
        while (*q) { path.push_back(int(strtol(q, const_cast<char**>(&q), 10))); if (*q == ',') ++q; }
        for (int sp : sel)
            if (S[size_t(sp)].name == sn) {
                Outcome o = replay_path(sp, task, path, 300);
                fputs(o.err.c_str(), stdout);
                printf("%s\n", o.failed ? ("REPLAY-FAILS " + headline(o)).c_str() : "REPLAY-PASSES");
                return o.failed ? 1 : 0;
            }
        fprintf(stderr, "no such space %s\n", sn.c_str());
        return 2;
    }

    std::vector<std::pair<int, uint64_t>> base;  // (space, first flattened index)
    uint64_t total = 0;
    for (int sp : sel) { base.push_back({sp, total}); total += S[size_t(sp)].ntasks; }
    auto locate = [&](uint64_t g) {
        size_t k = base.size() - 1;
        while (base[k].second > g) --k;
        return std::make_pair(base[k].first, g - base[k].second);
    };
    double t0 = now();
    fflush(nullptr);
    std::vector<pid_t> pid(size_t(workers), 0);
    std::vector<int> efd(size_t(workers), -1);
    std::vector<uint64_t> lastbeat(size_t(workers), 0);
    std::vector<double> lastt(size_t(workers), now());
    auto spawn = [&](int k) {
        efd[size_t(k)] = memfd_create("mc", 0);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            dup2(efd[size_t(k)], 2);
            dup2(efd[size_t(k)], 1);
            wid = k;
            uint64_t g;
            while (!shm->stop && (g = shm->next.fetch_add(1)) < total) {
                auto [sp, task] = locate(g);
                run_task(sp, task);
            }
            die(0);
        }
        pid[size_t(k)] = p;
        lastt[size_t(k)] = now();
    };
    for (int k = 0; k < workers; ++k) spawn(k);
    int alive = workers;
    bool violated = false, checker = false;
    std::string vjson;
    auto investigate = [&](int k, bool hung, int status) {
        WorkerShm& w = shm->w[k];
        int sp = w.space;
        uint64_t task = w.task;
        std::vector<int> path;
        for (int i = 0; i < w.len; ++i) path.push_back(w.path[i].c);
        Outcome first;
        first.err = read_fd(efd[size_t(k)]);
        first.status = status;
        first.hang = hung;
        first.failed = true;
        shm->stop = 1;
        Outcome o = replay_path(sp, task, path, hung ? 120 : 300);
        bool whole = false;
        if (!o.failed) {  // depends on what ran before in the same process: re-execute the whole task
            whole = true;
            shm->stop = 0;
            o = isolated([&] { wid = kMaxWorkers - 1; run_task(sp, task); }, 600);
            shm->stop = 1;
        }
        std::string ps;
        for (size_t i = 0; i < path.size(); ++i) ps += (i ? "," : "") + std::to_string(path[i]);
        if (!o.failed) {
            fprintf(stderr, "a failure of %s@%lu@%s did not reproduce: %s\n%s\n", S[size_t(sp)].name.c_str(), (unsigned long)task, ps.c_str(),
                    headline(first).c_str(), clean_err(first.err).c_str());
            checker = true;
            return;
        }
        if (o.checker_error) {
            fprintf(stderr, "checker error in %s@%lu@%s: %s\n", S[size_t(sp)].name.c_str(), (unsigned long)task, ps.c_str(), headline(o).c_str());
            checker = true;
            return;
        }
        violated = true;
        auto nl = note_lines(o.err);
        vjson = "{\"space\":\"" + jesc(S[size_t(sp)].name) + "\",\"task\":" + std::to_string(task) + ",\"path\":\"" + ps +
                "\",\"whole_task\":" + (whole ? "true" : "false") + ",\"message\":\"" + jesc(headline(o)) + "\",\"history\":[";
        for (size_t i = 0; i < nl.size(); ++i) vjson += (i ? ",\"" : "\"") + jesc(nl[i]) + "\"";
        vjson += "],\"stderr\":\"" + jesc(clean_err(o.err)) + "\"}";
    };
    while (alive > 0) {
        int st;
        pid_t r = waitpid(-1, &st, WNOHANG);
        if (r > 0) {
            for (int k = 0; k < workers; ++k)
                if (pid[size_t(k)] == r) {
                    pid[size_t(k)] = 0;
                    --alive;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !violated && !checker) investigate(k, false, st);
                }
            continue;
        }
        for (int k = 0; k < workers; ++k) {
            if (!pid[size_t(k)]) continue;
            uint64_t b = shm->w[k].beat;
            if (b != lastbeat[size_t(k)]) { lastbeat[size_t(k)] = b; lastt[size_t(k)] = now(); }
            else if (now() - lastt[size_t(k)] > hang || ((violated || checker) && now() - lastt[size_t(k)] > 3)) {
                pid_t victim = pid[size_t(k)];
                kill(victim, SIGKILL);
                waitpid(victim, &st, 0);
                pid[size_t(k)] = 0;
                --alive;
                if (!violated && !checker) investigate(k, true, st);
            }
        }
        usleep(5000);
    }
    double wall = now() - t0;
    // samples: the first and a late execution of each space, replayed with notes
    std::string js = "{\"prop\":\"" + prop + "\",\"tier\":\"" + tier + "\",\"wall_s\":" + std::to_string(wall) + ",\"spaces\":[";
    uint64_t P = 0, T = 0, D = 0;
    for (size_t i = 0; i < sel.size(); ++i) {
        auto& st = shm->st[sel[i]];
        auto& sd = S[size_t(sel[i])];
        js += std::string(i ? "," : "") + "{\"name\":\"" + jesc(sd.name) + "\",\"tasks\":" + std::to_string(st.tasks) + ",\"of\":" + std::to_string(sd.ntasks) +
              ",\"executions\":" + std::to_string(st.paths) + ",\"transitions\":" + std::to_string(st.steps) + ",\"distinct_states\":" + std::to_string(st.states) +
              ",\"pruned\":" + std::to_string(st.pruned) + ",\"max_choices\":" + std::to_string(st.maxdepth) + ",\"cpu_s\":" + std::to_string(double(st.micros) / 1e6) + "}";
        P += st.paths; T += st.steps; D += st.states;
    }
    js += "],\"samples\":[";
    if (!violated && !checker) {
        int cnt = 0;
        size_t stride = sel.size() > 6 ? sel.size() / 6 : 1;
        for (size_t i = 0; i < sel.size() && cnt < 8; i += stride) {
            auto& sd = S[size_t(sel[i])];
            Outcome o = isolated([&] {  // a middle task; within it, always the last alternative
                replaying = true;
                wid = kMaxWorkers - 1;
                cur_space = sel[i];
                uint64_t task = sd.ntasks / 2;
                shm->w[wid].len = 0;
                for (int k = 0; k < 7; ++k) {
                    bool more = true;
                    int fd = -1, save = -1;
                    if (k < 6) { fd = open("/dev/null", O_WRONLY); save = dup(2); dup2(fd, 2); }
                    run_one(sel[i], task);
                    if (k < 6) { fflush(stderr); dup2(save, 2); close(save); close(fd); more = advance(shm->w[wid]); }
                    if (!more) { shm->w[wid].len = 0; fprintf(stderr, "NOTE (task with %d executions)\n", k + 1); run_one(sel[i], task); break; }
                }
            }, 60);
            auto nl = note_lines(o.err);
            std::string t;
            for (auto& l : nl) { if (t.size() < 700) t += (t.empty() ? "" : "; ") + l; }
            js += std::string(cnt++ ? "," : "") + "\"" + jesc(sd.name + ": " + t) + "\"";
        }
    }
    js += "],\"executions\":" + std::to_string(P) + ",\"transitions\":" + std::to_string(T) + ",\"distinct_states\":" + std::to_string(D) +
          ",\"violation\":" + (violated ? vjson : std::string("null")) + "}";
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror(out.c_str()); return 2; }
        fputs(js.c_str(), f);
        fclose(f);
    }
    printf("%s %s: %lu executions, %lu transitions, %lu states, %.1fs%s\n", prop.c_str(), tier.c_str(), (unsigned long)P, (unsigned long)T, (unsigned long)D, wall,
           violated ? " VIOLATION" : checker ? " CHECKER-ERROR" : "");
    if (violated) printf("%s\n", vjson.c_str());
    return violated ? 1 : checker ? 2 : 0;
}
}  // namespace mc
