// Exhaustive-enumeration engine: scenarios are indexed, split over forked workers, executed on the
// real code; crashes, hangs and oracle mismatches are turned into replayable violations.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include "model.hpp"

namespace mc {

inline double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

inline Str hex(const Str& s) {
    static const char* d = "0123456789abcdef";
    Str o;
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o.empty() ? "-" : o;
}
inline Str unhex(const Str& s) {
    if (s == "-") return Str();
    Str o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtoul(s.substr(i, 2).c_str(), 0, 16);
    return o;
}
inline Str show(const Str& s) {  // printable form for messages
    Str o = "\"";
    for (unsigned char c : s) {
        if (o.size() > 160) { o += "..."; break; }
        if (c >= 32 && c < 127 && c != '"' && c != '\\') o += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    return o + "\"";
}
inline Str fmt(const char* f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

struct Scenario {
    Config cfg;
    Strs keys;       // sorted (may hold duplicates in the duplicate space)
    Strs queries;    // explicit queries; empty: derived from the keys
    int param = 0;   // space-specific
    int effort = 1;  // 0: linear number of operations, 1: neighbourhood pairs, 2: all pairs
};

inline const char* typeName(int t) {
    static const char* n[] = {"none", "hash", "real", "mixed"};
    return n[t & 3];
}
inline Str cfgText(const Config& c) {
    return fmt("include_dense=%d ratio=%u suffix=%s hash_bits=%u real_bits=%u", (int)c.dense, c.ratio,
               typeName(c.type), c.h, c.r);
}
inline Str keysText(const Strs& k, size_t lim = 12) {
    Str o = fmt("%zu keys [", k.size());
    for (size_t i = 0; i < k.size(); i++) {
        if (i == lim) { o += " ..."; break; }
        if (i) o += ",";
        o += show(k[i]);
    }
    return o + "]";
}

inline void writeScenario(FILE* f, const Scenario& s) {
    fprintf(f, "cfg %d %u %d %u %u\nparam %d\neffort %d\n", (int)s.cfg.dense, s.cfg.ratio, s.cfg.type, s.cfg.h,
            s.cfg.r, s.param, s.effort);
    for (auto& k : s.keys) fprintf(f, "key %s\n", hex(k).c_str());
    for (auto& k : s.queries) fprintf(f, "query %s\n", hex(k).c_str());
}
inline Scenario readScenario(const Str& path, Str* prop, Str* space) {
    Scenario s;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", path.c_str()); exit(2); }
    char* line = 0;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == ' ')) line[--n] = 0;
        char* v = strchr(line, ' ');
        Str w = v ? Str(line, v - line) : Str(line);
        v = v ? v + 1 : line + n;
        if (w == "cfg") {
            unsigned long long x[5] = {};
            for (int i = 0; i < 5; i++) x[i] = strtoull(v, &v, 10);
            s.cfg.dense = x[0]; s.cfg.ratio = x[1]; s.cfg.type = x[2]; s.cfg.h = x[3]; s.cfg.r = x[4];
        }
        else if (w == "param") s.param = strtoull(v, 0, 10);
        else if (w == "effort") s.effort = strtoull(v, 0, 10);
        else if (w == "key") s.keys.push_back(unhex(v));
        else if (w == "query") s.queries.push_back(unhex(v));
        else if (w == "property" && prop) *prop = v;
        else if (w == "space" && space) *space = v;
    }
    free(line);
    fclose(f);
    return s;
}

struct Failure {
    Str msg;
};

enum Counter { C_OPS, C_STATES, C_CHECKS, C_POS, C_NEG, C_FP, C_AMBIG, C_INVALID, C_A, C_B, C_C, C_D, C_E, C_NUM };

struct Shared {  // one per worker
    volatile uint64_t current;   // scenario index being executed, ~0 = none
    volatile double since;
    volatile uint64_t done;
    volatile int finished;
    volatile int failed;
    volatile uint64_t fail_index;
    char msg[8192];
    uint64_t counters[C_NUM];
    uint64_t hist[64];
};

struct Env {
    Shared* sh = 0;
    bool replay = false;
    const char* what = "";   // operation being executed, for crash reports
    void count(Counter c, uint64_t n = 1) { sh->counters[c] += n; }
    void hist(unsigned i) { sh->hist[i < 63 ? i : 63]++; }
    [[noreturn]] void fail(const Str& m) { throw Failure{m}; }
};

struct Space {
    Str name;
    Str describe;
    uint64_t count;
    std::function<Scenario(uint64_t)> get;
};

typedef std::function<void(Env&, const Scenario&)> CheckFn;

struct Result {
    bool violated = false;
    bool error = false;
    Str msg;
    Scenario sc;
    Str space;
    uint64_t index = 0;
    uint64_t scenarios = 0, distinct = 0;
    uint64_t counters[C_NUM] = {0};
    uint64_t hist[64] = {0};
    std::vector<std::pair<Str, uint64_t>> per_space;
    Strs samples;
};

inline Str scenarioText(const Scenario& s) { return keysText(s.keys) + " " + cfgText(s.cfg); }

inline uint64_t hashScenario(const Scenario& s) {
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](const void* p, size_t n) {
        const unsigned char* b = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
        h ^= n + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    };
    int v[6] = {(int)s.cfg.dense, (int)s.cfg.ratio, s.cfg.type, (int)s.cfg.h, (int)s.cfg.r, s.param};
    mix(v, sizeof v);
    for (auto& k : s.keys) mix(k.data(), k.size());
    if (s.queries.size() < 40) for (auto& k : s.queries) mix(k.data(), k.size());
    return h;
}

class Engine {
public:
    std::vector<Space> spaces;
    CheckFn check;
    int workers = 8;
    double limit_s = 30;       // per scenario before it is called a suspected hang
    uint64_t mem_mb = 3000;    // address-space limit (not under ASan)
    bool verbose = false;

    Result run() {
        std::vector<uint64_t> base;
        uint64_t total = 0;
        for (auto& s : spaces) { base.push_back(total); total += s.count; }
        Result res;
        size_t shn = sizeof(Shared) * workers;
        Shared* sh = (Shared*)mmap(0, shn, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        uint64_t* hs = (uint64_t*)mmap(0, total * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED || hs == MAP_FAILED) { res.error = true; res.msg = "mmap failed"; return res; }
        auto locate = [&](uint64_t g, size_t* si) -> uint64_t {
            size_t i = spaces.size() - 1;
            while (base[i] > g) i--;
            // skip empty spaces that share the base
            while (spaces[i].count == 0) i--;
            *si = i;
            return g - base[i];
        };
        std::vector<pid_t> pids(workers, 0);
        uint64_t stride = workers;
        // smallest index known to fail: later scenarios need not be explored any more
        volatile uint64_t* stop = (volatile uint64_t*)(hs + total);
        *stop = ~0ull;
        auto failedAt = [stop](uint64_t g) { if (g < *stop) *stop = g; };
        for (int w = 0; w < workers; w++) {
            sh[w].current = ~0ull;
            fflush(0);
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                limits();
                Env env;
                env.sh = &sh[w];
                for (uint64_t g = w; g < total && g < *stop; g += stride) {
                    size_t si;
                    uint64_t idx = locate(g, &si);
                    sh[w].since = now();
                    sh[w].current = g;
                    Scenario sc = spaces[si].get(idx);
                    hs[g] = hashScenario(sc) | 1;
                    try {
                        check(env, sc);
                    } catch (Failure& f) {
                        snprintf((char*)sh[w].msg, sizeof sh[w].msg, "%s", f.msg.c_str());
                        sh[w].fail_index = g;
                        sh[w].failed = 1;
                        failedAt(g);
                        break;
                    } catch (std::exception& e) {
                        snprintf((char*)sh[w].msg, sizeof sh[w].msg, "exception escaped from the code under test: %s", e.what());
                        sh[w].fail_index = g;
                        sh[w].failed = 1;
                        failedAt(g);
                        break;
                    }
                    sh[w].done++;
                }
                sh[w].current = ~0ull;
                sh[w].finished = 1;
                _exit(0);
            }
            pids[w] = p;
        }
        // wait, watching for hangs
        int alive = workers;
        std::vector<Str> death(workers);
        std::vector<char> hung(workers, 0);
        while (alive > 0) {
            bool any = false;
            for (int w = 0; w < workers; w++) {
                if (!pids[w]) continue;
                int st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == pids[w]) {
                    pids[w] = 0;
                    alive--;
                    any = true;
                    if (!sh[w].finished && !hung[w]) {
                        if (WIFSIGNALED(st)) death[w] = fmt("signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                        else death[w] = fmt("exit status %d", WEXITSTATUS(st));
                        if (sh[w].current != ~0ull) failedAt(sh[w].current);
                    }
                } else if (sh[w].current != ~0ull && now() - sh[w].since > limit_s) {
                    hung[w] = 1;
                    failedAt(sh[w].current);
                    death[w] = "no answer";
                    kill(pids[w], SIGKILL);
                }
            }
            if (!any) usleep(3000);
        }
        // earliest failing scenario
        uint64_t best = ~0ull;
        int bw = -1;
        for (int w = 0; w < workers; w++) {
            uint64_t at = ~0ull;
            if (sh[w].failed) at = sh[w].fail_index;
            else if (!death[w].empty()) at = sh[w].current;
            if (at != ~0ull && at < best) { best = at; bw = w; }
            if (at == ~0ull && !death[w].empty()) { res.error = true; res.msg = "worker died outside a scenario: " + death[w]; }
        }
        for (int w = 0; w < workers; w++) {
            res.scenarios += sh[w].done;
            for (int c = 0; c < C_NUM; c++) res.counters[c] += sh[w].counters[c];
            for (int c = 0; c < 64; c++) res.hist[c] += sh[w].hist[c];
        }
        {
            std::vector<uint64_t> v;
            for (uint64_t g = 0; g < total; g++) if (hs[g]) v.push_back(hs[g]);
            std::sort(v.begin(), v.end());
            res.distinct = std::unique(v.begin(), v.end()) - v.begin();
        }
        for (size_t i = 0; i < spaces.size(); i++) {
            res.per_space.push_back({spaces[i].name, spaces[i].count});
            if (spaces[i].count && res.samples.size() < 6)
                res.samples.push_back(spaces[i].name + ": " + scenarioText(spaces[i].get(spaces[i].count / 2)));
        }
        if (bw >= 0) {
            size_t si;
            uint64_t idx = locate(best, &si);
            res.sc = spaces[si].get(idx);
            res.space = spaces[si].name;
            res.index = idx;
            Str first = sh[bw].failed ? Str(sh[bw].msg) : death[bw];
            bool was_hang = hung[bw];
            // replay alone in a fresh process before believing it
            Str again;
            int k = isolated(res.sc, was_hang ? 3 * limit_s : 2 * limit_s, &again);
            if (k == 1) { res.violated = true; res.msg = again; }
            else {
                // replay the whole shard up to it (a failure that needs what came before)
                if (!was_hang) {
                    Str m;
                    int k2 = shard(best, stride, best % stride, &m, locate);
                    if (k2 == 1) { res.violated = true; res.msg = m + " (needs the preceding scenarios of its shard)"; }
                }
                if (!res.violated) {
                    res.error = true;
                    res.msg = "not reproducible: " + first + " on " + scenarioText(res.sc);
                }
            }
        }
        munmap(sh, shn);
        munmap(hs, total * 8 + 8);
        return res;
    }

    // 1: fails (message in *msg), 0: passes
    int isolated(const Scenario& sc, double limit, Str* msg) {
        return child(limit, msg, [&](Env& env) { check(env, sc); });
    }

private:
    void limits() {
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !defined(MC_MSAN)
        rl.rlim_cur = rl.rlim_max = mem_mb << 20;
        setrlimit(RLIMIT_AS, &rl);
#endif
        if (!verbose) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            dup2(fd, 1);
        }
    }
    template <class F> int child(double limit, Str* msg, F f) {
        Shared* s = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        char tmpl[] = "/tmp/mcerrXXXXXX";
        int efd = mkstemp(tmpl);
        fflush(0);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            bool v = verbose;
            verbose = true;
            limits();
            verbose = v;
            dup2(efd, 2);
            dup2(efd, 1);
            Env env;
            env.sh = s;
            env.replay = true;
            try { f(env); }
            catch (Failure& e) { snprintf((char*)s->msg, sizeof s->msg, "%s", e.msg.c_str()); s->failed = 1; }
            catch (std::exception& e) { snprintf((char*)s->msg, sizeof s->msg, "exception escaped from the code under test: %s", e.what()); s->failed = 1; }
            s->finished = 1;
            fflush(0);
            _exit(0);
        }
        double t0 = now();
        int st = 0;
        bool timeout = false;
        for (;;) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) break;
            if (now() - t0 > limit) { timeout = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
            usleep(2000);
        }
        int ret = 0;
        if (s->failed) { *msg = (char*)s->msg; ret = 1; }
        else if (timeout) { *msg = fmt("no answer within %.0f s (hang)", limit); ret = 1; }
        else if (!s->finished) {
            Str d = WIFSIGNALED(st) ? fmt("signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("exit status %d", WEXITSTATUS(st));
            char buf[3000];
            lseek(efd, 0, SEEK_SET);
            ssize_t n = read(efd, buf, sizeof buf - 1);
            if (n < 0) n = 0;
            buf[n] = 0;
            Str e;
            // keep the informative lines only
            int kept = 0;
            for (char* at = strtok(buf, "\n"); at && kept < 4; at = strtok(0, "\n")) {
                Str line(at);
                if (line.find("ERROR") != Str::npos || line.find("WARNING: MemorySan") != Str::npos || line.find("ssert") != Str::npos || line.find("runtime error") != Str::npos || line.find("terminate") != Str::npos || line.find("what()") != Str::npos || line.find("SUMMARY") != Str::npos) {
                    e += " | " + line; kept++;
                }
            }
            *msg = "the code under test died: " + d + e;
            ret = 1;
        }
        close(efd);
        unlink(tmpl);
        munmap(s, sizeof(Shared));
        return ret;
    }
    template <class L> int shard(uint64_t upto, uint64_t stride, uint64_t w, Str* msg, L locate) {
        return child(600, msg, [&](Env& env) {
            for (uint64_t g = w; g <= upto; g += stride) {
                size_t si;
                uint64_t idx = locate(g, &si);
                check(env, spaces[si].get(idx));
            }
        });
    }
};

}  // namespace mc
