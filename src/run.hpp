// Case runner: enumerates cases deterministically, distributes them over forked
// workers, detects violations, crashes and hangs, and reports as JSON.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <algorithm>
#include <map>
#include <set>
#include <tuple>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

typedef std::vector<uint8_t> Bytes;

static inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
static inline uint64_t fnv(const Bytes &b, uint64_t h = 1469598103934665603ull)
{
    return fnv(b.data(), b.size(), h ^ b.size());
}
static inline std::string hex(const Bytes &b, size_t max = 400)
{
    std::string s;
    char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, "%02x", b[i]); s += t; }
    if (b.size() > max) s += "...(" + std::to_string(b.size()) + " bytes)";
    return s;
}
static inline std::string strf(const char *fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

enum { NCOUNTERS = 8, MAXJOBS = 16, NSAMPLES = 3 };
struct Slot {
    volatile uint64_t beat;          // bumped at every case (and tick)
    volatile uint64_t idx;           // current case
    uint64_t cases;                  // cases there were
    volatile uint64_t counters[NCOUNTERS];
    volatile int failed;
    char desc[2048];                 // current case
    char msg[8192];                  // violation text
    char key[512];                   // identifies the finding (known-findings file)
    char samples[NSAMPLES][600];
    int nsamples;
    uint64_t findings;               // bit per known finding that was met
};

static inline double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Ctx {
    bool thorough = false;
    int jobs = 1, me = 0;
    int64_t only = -1;
    uint64_t idx = 0;
    Slot *s = nullptr;
    std::unordered_set<uint64_t> distinct;
    // counters: 0 evaluations, 1 states, 2 transitions, 3 traces, 4.. free
    void count(int i, uint64_t n = 1) { s->counters[i] += n; }
    void distinct_add(uint64_t h) { if (distinct.size() < 20000000) distinct.insert(h); }
    void tick() { s->beat++; }
    void sample(const std::string &t)
    {
        if (s->nsamples < NSAMPLES) {
            snprintf(s->samples[s->nsamples], sizeof s->samples[0], "%s", t.c_str());
            s->nsamples++;
        }
    }
    // Is the next case mine?
    double slow_t = 0;
    bool next()
    {
        uint64_t i = idx++;
        if (only >= 0 ? (int64_t)i != only : (int)(((i * 2654435761ull) >> 13) % jobs) != me) return false;
        s->idx = i;
        s->beat++;
        if (getenv("VERIF_SLOW")) {     // development aid: time per case
            double t = now();
            if (slow_t > 0.2e0 && t - slow_t > 0.5) fprintf(stderr, "slow %.1f s before %llu: %s\n", t - slow_t, (unsigned long long)i, s->desc);
            slow_t = t;
        }
        return true;
    }
    void desc(const std::string &d) { snprintf(s->desc, sizeof s->desc, "%s", d.c_str()); }
    [[noreturn]] void fail_key(const std::string &key, const std::string &m)
    {
        snprintf(s->key, sizeof s->key, "%s", key.c_str());
        snprintf(s->msg, sizeof s->msg, "%s", m.c_str());
        s->failed = 1;
        _exit(10);
    }
    [[noreturn]] void fail(const std::string &m) { fail_key("", m); }
    // A violation of a kind that may be listed as known.
    std::vector<std::string> known;
    void finding(const std::string &key, const std::string &m)
    {
        for (size_t i = 0; i < known.size() && i < 64; i++)
            if (known[i] == key) { s->findings |= 1ull << i; return; }
        fail_key(key, m);
    }
};

static inline std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
        else r += c;
    }
    return r;
}


// Usage: prog --tier quick|thorough --jobs N --out FILE --tmp DIR [--only IDX] [--hang SECONDS]
static int runner_main(int argc, char **argv, const std::function<void(Ctx &)> &enumerate)
{
    std::string out = "result.json", tmp = "/tmp";
    Ctx c;
    double hang = 30;
    c.jobs = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") c.thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--jobs") c.jobs = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--tmp") tmp = argv[++i];
        else if (a == "--only") c.only = atoll(argv[++i]);
        else if (a == "--hang") hang = atof(argv[++i]);
        else if (a == "--known") {
            std::string k = argv[++i];
            for (size_t p = 0; p < k.size();) { size_t e = std::min(k.find(',', p), k.size()); c.known.push_back(k.substr(p, e - p)); p = e + 1; }
        }
    }
    if (c.only >= 0) c.jobs = 1;
    if (c.jobs > MAXJOBS) c.jobs = MAXJOBS;
    Slot *slots = (Slot *)mmap(0, sizeof(Slot) * MAXJOBS, PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(slots, 0, sizeof(Slot) * MAXJOBS);
    double t0 = now();
    std::vector<pid_t> pid(c.jobs);
    for (int w = 0; w < c.jobs; w++) {
        fflush(0);
        pid[w] = fork();
        if (pid[w] == 0) {
            std::string err = tmp + "/w" + std::to_string(w) + ".err";
            int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 1);
            dup2(fd, 2);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            c.me = w;
            c.s = &slots[w];
            enumerate(c);
            c.s->cases = c.idx;
            std::string df = tmp + "/w" + std::to_string(w) + ".dist";
            FILE *f = fopen(df.c_str(), "wb");
            for (uint64_t h : c.distinct) fwrite(&h, 8, 1, f);
            fclose(f);
            _exit(0);
        }
    }
    std::vector<uint64_t> beat(c.jobs, 0);
    std::vector<double> at(c.jobs, now());
    int left = c.jobs;
    std::string kind;
    int bad = -1, badstatus = 0;
    while (left > 0 && bad < 0) {
        for (int w = 0; w < c.jobs; w++) {
            if (pid[w] == 0) continue;
            int st;
            if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
                pid[w] = 0;
                left--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    bad = w;
                    badstatus = st;
                    kind = slots[w].failed ? "violation" : "crash";
                    break;
                }
                continue;
            }
            if (slots[w].beat != beat[w]) { beat[w] = slots[w].beat; at[w] = now(); }
            else if (now() - at[w] > hang) { bad = w; kind = "hang"; break; }
        }
        if (bad < 0) usleep(5000);
    }
    for (int w = 0; w < c.jobs; w++)
        if (pid[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); }
    uint64_t tot[NCOUNTERS] = {0};
    for (int w = 0; w < c.jobs; w++)
        for (int k = 0; k < NCOUNTERS; k++) tot[k] += slots[w].counters[k];
    std::unordered_set<uint64_t> dist;
    if (bad < 0)
        for (int w = 0; w < c.jobs; w++) {
            std::string df = tmp + "/w" + std::to_string(w) + ".dist";
            FILE *f = fopen(df.c_str(), "rb");
            uint64_t h;
            if (f) { while (fread(&h, 8, 1, f) == 1) dist.insert(h); fclose(f); }
            unlink(df.c_str());
        }
    for (int w = 0; w < c.jobs && bad < 0; w++)
        if (slots[w].cases != slots[0].cases) { kind = "error"; bad = w; snprintf(slots[w].msg, sizeof slots[w].msg, "numbers of cases differ"); }
    FILE *o = fopen(out.c_str(), "w");
    fprintf(o, "{\"status\": \"%s\", \"wall\": %.3f", bad < 0 ? "ok" : kind.c_str(), now() - t0);
    fprintf(o, ", \"counters\": [");
    for (int k = 0; k < NCOUNTERS; k++) fprintf(o, "%s%llu", k ? ", " : "", (unsigned long long)tot[k]);
    fprintf(o, "], \"distinct\": %zu, \"samples\": [", dist.size());
    bool first = true;
    for (int w = 0; w < c.jobs && w < 2; w++)
        for (int k = 0; k < slots[w].nsamples; k++) {
            fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(slots[w].samples[k]).c_str());
            first = false;
        }
    fprintf(o, "], \"findings\": [");
    uint64_t found = 0;
    first = true;
    for (int w = 0; w < c.jobs; w++) found |= slots[w].findings;
    for (size_t i = 0; i < c.known.size() && i < 64; i++)
        if (found >> i & 1) { fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(c.known[i]).c_str()); first = false; }
    fprintf(o, "]");
    if (bad >= 0) {
        std::string log;
        std::string err = tmp + "/w" + std::to_string(bad) + ".err";
        FILE *f = fopen(err.c_str(), "r");
        if (f) {
            char b[6001];
            size_t n = fread(b, 1, 6000, f);
            log.assign(b, n);
            fclose(f);
        }
        fprintf(o, ", \"idx\": %llu, \"desc\": \"%s\", \"msg\": \"%s\", \"key\": \"%s\", \"wstatus\": %d, \"log\": \"%s\"",
                (unsigned long long)slots[bad].idx, jesc(slots[bad].desc).c_str(),
                jesc(slots[bad].msg).c_str(), jesc(slots[bad].key).c_str(), badstatus, jesc(log).c_str());
    }
    fprintf(o, "}\n");
    fclose(o);
    return bad < 0 ? 0 : 1;
}
