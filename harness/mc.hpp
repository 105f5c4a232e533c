// Bounded exhaustive exploration runner.
//
// A harness registers families of cases. A case is one execution (or one small
// sub-tree of executions) of the real code, identified by an index; a family
// is the complete enumeration of a finite space. Cases are run in chunks, each
// chunk in a fresh forked process, so a violation is replayed from
// (first case of the chunk, failing case) in a pristine process.
#pragma once
#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

struct Violation {
    std::string msg;
};

struct Family {
    std::string name;
    uint64_t count;
    std::function<void(uint64_t)> run;
    uint64_t chunk = 0; // 0: automatic
    uint64_t first = 0; // global index of the first case
};

struct Shared {
    std::atomic<uint64_t> states, transitions, traces, aux[16];
    std::atomic<uint64_t> done;
    std::atomic<uint64_t> saturated;
    std::atomic<uint64_t> minviol;
    std::atomic<uint64_t> current[64];
    std::atomic<int> vlock;
    std::atomic<uint64_t> known_seen; // bitmap over known_keys
    uint64_t vcase, vchunk;
    char vmsg[2048];
};

inline Shared *sh = nullptr;
inline std::atomic<uint64_t> *table = nullptr;
inline uint64_t table_mask = 0;
inline bool logging = false;
inline std::string logtext;
inline bool thorough = false;
inline long case_seconds = 120;
inline std::vector<Family> families;
inline std::vector<std::string> aux_names;
inline std::vector<std::string> known_keys; // findings listed in the known-findings file

// local counters, flushed at the end of a chunk
inline uint64_t l_trans = 0, l_traces = 0, l_aux[16] = {0};

inline std::string vfmt(const char *f, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}
[[noreturn]] inline void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    throw Violation{s};
}
inline void log(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void log(const char *f, ...) {
    if (!logging)
        return;
    va_list ap;
    va_start(ap, f);
    logtext += vfmt(f, ap) + "\n";
    va_end(ap);
    if (logtext.size() > 200000)
        logtext = logtext.substr(logtext.size() - 100000);
}
// a violation identified by a key: recorded, not raised, when the key is listed
inline void finding(const std::string &key, const std::string &msg) {
    for (size_t i = 0; i < known_keys.size(); i++)
        if (known_keys[i] == key) {
            sh->known_seen.fetch_or(1ull << i);
            return;
        }
    throw Violation{msg};
}
#define MC_CHECK(cond, ...)                                                    \
    do {                                                                       \
        if (!(cond))                                                           \
            mc::fail(__VA_ARGS__);                                             \
    } while (0)

inline void trans(uint64_t n = 1) { l_trans += n; }
inline void trace(uint64_t n = 1) { l_traces += n; }
inline void aux(int i, uint64_t n = 1) { l_aux[i] += n; }

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
inline uint64_t bits(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
}
inline uint64_t mixd(uint64_t h, double d) {
    if (d != d)
        return mix(h, 0x7ff8000000000001ull);
    return mix(h, bits(d));
}
// records a visited state (by hash); counts the distinct ones
inline void state(uint64_t h) {
    if (h == 0)
        h = 1;
    uint64_t i = h & table_mask;
    for (int k = 0; k < 64; k++, i = (i + 1) & table_mask) {
        uint64_t cur = table[i].load(std::memory_order_relaxed);
        if (cur == h)
            return;
        if (cur == 0) {
            if (table[i].compare_exchange_strong(cur, h)) {
                sh->states.fetch_add(1, std::memory_order_relaxed);
                return;
            }
            if (cur == h)
                return;
        }
    }
    sh->saturated.fetch_add(1, std::memory_order_relaxed);
}

inline void add(const std::string &name, uint64_t count, std::function<void(uint64_t)> run,
                uint64_t chunk = 0) {
    Family f;
    f.name = name;
    f.count = count;
    f.run = run;
    f.chunk = chunk;
    families.push_back(f);
}

inline Family *find(uint64_t c, uint64_t *idx) {
    for (auto &f : families)
        if (c >= f.first && c < f.first + f.count) {
            *idx = c - f.first;
            return &f;
        }
    return nullptr;
}

inline void run_case(uint64_t c) {
    uint64_t idx = 0;
    Family *f = find(c, &idx);
    f->run(idx);
}

inline void flush() {
    sh->transitions += l_trans;
    sh->traces += l_traces;
    for (int i = 0; i < 16; i++)
        sh->aux[i] += l_aux[i];
    l_trans = l_traces = 0;
    memset(l_aux, 0, sizeof l_aux);
}

inline void record(uint64_t c, uint64_t chunk, const std::string &msg) {
    int z = 0;
    while (!sh->vlock.compare_exchange_weak(z, 1)) {
        z = 0;
        usleep(10);
    }
    if (c < sh->minviol.load()) {
        sh->minviol = c;
        sh->vcase = c;
        sh->vchunk = chunk;
        snprintf(sh->vmsg, sizeof sh->vmsg, "%s", msg.c_str());
    }
    sh->vlock = 0;
}

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
            o += fmt("\\u%04x", c);
        else
            o += c;
    }
    return o;
}

// runs cases [a..b] in this process; returns true if case b violated.
// Used for replays (with the log on for the last one).
inline int replay_child(uint64_t a, uint64_t b, const char *outfile) {
    for (uint64_t c = a; c <= b; c++) {
        logging = c == b;
        logtext.clear();
        if (case_seconds)
            alarm(case_seconds);
        try {
            run_case(c);
        } catch (Violation &v) {
            if (c != b)
                continue;
            FILE *f = fopen(outfile, "w");
            fprintf(f, "%s\n--- trace ---\n%s", v.msg.c_str(), logtext.c_str());
            fclose(f);
            return 10;
        }
    }
    return 0;
}

int main(int argc, char **argv, void (*setup)());

inline int main(int argc, char **argv, void (*setup)()) {
    const char *out = nullptr;
    const char *tracefile = "trace.txt";
    long rc_case = -1, rc_from = -1;
    int workers = (int)sysconf(_SC_NPROCESSORS_ONLN);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough")
            thorough = true;
        else if (a == "--out")
            out = argv[++i];
        else if (a == "--trace")
            tracefile = argv[++i];
        else if (a == "--case")
            rc_case = atol(argv[++i]);
        else if (a == "--from")
            rc_from = atol(argv[++i]);
        else if (a == "--workers")
            workers = atoi(argv[++i]);
    }
    if (workers < 1)
        workers = 1;
    if (workers > 60)
        workers = 60;
    uint64_t slots = 1ull << (thorough ? 27 : 24);
    table = (std::atomic<uint64_t> *)mmap(0, slots * 8, PROT_READ | PROT_WRITE,
                                          MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    table_mask = slots - 1;
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1,
                        0);
    sh->minviol = UINT64_MAX;
    if (const char *k = getenv("MC_KNOWN")) {
        std::string t = k, cur;
        for (char ch : t + ";")
            if (ch == ';') {
                if (!cur.empty())
                    known_keys.push_back(cur);
                cur.clear();
            } else
                cur += ch;
    }
    setup();
    uint64_t total = 0;
    for (auto &f : families) {
        f.first = total;
        total += f.count;
    }
    if (rc_case >= 0) {
        if (rc_from < 0)
            rc_from = rc_case;
        int r = replay_child(rc_from, rc_case, tracefile);
        if (r == 10) {
            FILE *f = fopen(tracefile, "r");
            char b[4096];
            while (f && fgets(b, sizeof b, f))
                fputs(b, stdout);
        } else
            printf("case %ld: no violation\n", rc_case);
        return r;
    }
    // chunks
    struct Chunk {
        uint64_t a, n;
    };
    std::vector<Chunk> chunks;
    for (auto &f : families) {
        uint64_t sz = f.chunk ? f.chunk : std::max<uint64_t>(1, f.count / 400);
        for (uint64_t i = 0; i < f.count; i += sz)
            chunks.push_back({f.first + i, std::min(sz, f.count - i)});
    }
    std::map<pid_t, std::pair<int, size_t>> running; // pid -> slot, chunk
    std::vector<int> freeslots;
    for (int i = workers - 1; i >= 0; i--)
        freeslots.push_back(i);
    size_t next = 0;
    int infra = 0;
    fflush(stdout);
    while (next < chunks.size() || !running.empty()) {
        while (next < chunks.size() && !freeslots.empty()) {
            if (chunks[next].a > sh->minviol.load()) {
                next = chunks.size();
                break;
            }
            int slot = freeslots.back();
            freeslots.pop_back();
            Chunk ch = chunks[next];
            pid_t p = fork();
            if (p < 0) {
                perror("fork");
                return 3;
            }
            if (p == 0) {
                for (uint64_t c = ch.a; c < ch.a + ch.n; c++) {
                    if (c > sh->minviol.load())
                        break;
                    sh->current[slot] = c;
                    if (case_seconds)
                        alarm(case_seconds);
                    try {
                        run_case(c);
                    } catch (Violation &v) {
                        record(c, ch.a, v.msg);
                        break;
                    }
                    sh->done++;
                }
                flush();
                _exit(0);
            }
            running[p] = {slot, next};
            next++;
        }
        if (running.empty())
            break;
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0)
            break;
        auto it = running.find(p);
        if (it == running.end())
            continue;
        int slot = it->second.first;
        size_t ci = it->second.second;
        running.erase(it);
        freeslots.push_back(slot);
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            uint64_t c = sh->current[slot];
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                fprintf(stderr, "worker killed (memory?) at case %" PRIu64 "\n", c);
                infra = 1;
                continue;
            }
            std::string m =
                WIFSIGNALED(st)
                    ? (WTERMSIG(st) == SIGALRM
                           ? fmt("the call did not return within %ld s", case_seconds)
                           : fmt("crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))))
                    : fmt("abnormal exit %d (sanitizer report or abort)", WEXITSTATUS(st));
            record(c, chunks[ci].a, m);
        }
    }
    bool violated = sh->minviol.load() != UINT64_MAX;
    std::string vtext;
    uint64_t from = 0;
    bool reproduced = false;
    if (violated) {
        for (int attempt = 0; attempt < 3 && !reproduced; attempt++) {
            from = attempt == 0 ? sh->vcase : sh->vchunk;
            unlink(tracefile);
            pid_t p = fork();
            if (p == 0)
                _exit(replay_child(from, sh->vcase, tracefile));
            int st;
            waitpid(p, &st, 0);
            if ((WIFEXITED(st) && WEXITSTATUS(st) != 0) || WIFSIGNALED(st))
                reproduced = true;
        }
        FILE *f = fopen(tracefile, "r");
        if (f) {
            char b[4096];
            while (fgets(b, sizeof b, f))
                vtext += b;
            fclose(f);
        }
    }
    // per-family samples: describe the first and last case of each family
    if (out) {
        FILE *f = fopen(out, "w");
        if (!f) {
            perror(out);
            return 3;
        }
        fprintf(f, "{\n\"total_cases\": %" PRIu64 ", \"done\": %" PRIu64 ", \"states\": %" PRIu64
                   ", \"transitions\": %" PRIu64 ", \"traces\": %" PRIu64
                   ", \"state_table_saturated\": %" PRIu64 ", \"infra\": %d,\n",
                total, sh->done.load(), sh->states.load(), sh->transitions.load(),
                sh->traces.load(), sh->saturated.load(), infra);
        fprintf(f, "\"families\": {");
        for (size_t i = 0; i < families.size(); i++)
            fprintf(f, "%s\"%s\": %" PRIu64, i ? ", " : "", jesc(families[i].name).c_str(),
                    families[i].count);
        fprintf(f, "},\n\"aux\": {");
        for (size_t i = 0; i < aux_names.size(); i++)
            fprintf(f, "%s\"%s\": %" PRIu64, i ? ", " : "", jesc(aux_names[i]).c_str(),
                    sh->aux[i].load());
        fprintf(f, "},\n\"known_seen\": [");
        bool fk = true;
        for (size_t i = 0; i < known_keys.size(); i++)
            if (sh->known_seen.load() >> i & 1) {
                fprintf(f, "%s\"%s\"", fk ? "" : ", ", jesc(known_keys[i]).c_str());
                fk = false;
            }
        fprintf(f, "],\n\"samples\": [");
        bool first = true;
        for (auto &fa : families) {
            if (!fa.count || violated)
                continue;
            for (uint64_t c : {fa.count / 3}) {
                // run one case with the log on, in a child
                int pp[2];
                if (pipe(pp))
                    break;
                fflush(f);
                pid_t p = fork();
                if (p == 0) {
                    close(pp[0]);
                    logging = true;
                    try {
                        fa.run(c);
                    } catch (Violation &) {
                    }
                    std::string s = logtext.substr(0, 1500);
                    ssize_t w = write(pp[1], s.data(), s.size());
                    (void)w;
                    _exit(0);
                }
                close(pp[1]);
                std::string s;
                char b[2000];
                ssize_t r;
                while ((r = read(pp[0], b, sizeof b)) > 0)
                    s.append(b, r);
                close(pp[0]);
                int st;
                waitpid(p, &st, 0);
                fprintf(f, "%s{\"family\": \"%s\", \"case\": %" PRIu64 ", \"trace\": \"%s\"}",
                        first ? "" : ",\n", jesc(fa.name).c_str(), c, jesc(s).c_str());
                first = false;
            }
        }
        fprintf(f, "],\n\"violation\": ");
        if (violated) {
            uint64_t idx = 0;
            Family *fa = find(sh->vcase, &idx);
            fprintf(f,
                    "{\"case\": %" PRIu64 ", \"from\": %" PRIu64
                    ", \"family\": \"%s\", \"index\": %" PRIu64
                    ", \"reproduced\": %s, \"msg\": \"%s\", \"text\": \"%s\"}\n",
                    sh->vcase, from, jesc(fa->name).c_str(), idx, reproduced ? "true" : "false",
                    jesc(sh->vmsg).c_str(), jesc(vtext.substr(0, 20000)).c_str());
        } else
            fprintf(f, "null\n");
        fprintf(f, "}\n");
        fclose(f);
    }
    if (infra && !violated)
        return 3;
    return violated ? 1 : 0;
}

// mixed radix decoding of a case index
struct Digits {
    uint64_t v;
    explicit Digits(uint64_t x) : v(x) {}
    uint64_t take(uint64_t n) {
        uint64_t d = v % n;
        v /= n;
        return d;
    }
};
inline uint64_t ipow(uint64_t b, unsigned e) {
    uint64_t r = 1;
    while (e--)
        r *= b;
    return r;
}

} // namespace mc
