// C26: the dump/restore example survives interruption at any point.
// c/examples/dump_restore/main.c is compiled with main renamed and run on simulated files.
// Graph search: state = (to file, state file); a run with any amounts, stopped after every
// operation that changes a file, or going to its end, leads to further states.
#undef main
#include "sim.hpp"
#include <setjmp.h>
#include <sys/stat.h>

extern "C" int ex_main(int argc, const char *argv[]);
static jmp_buf JB;
static bool IN;
static int EXIT_CODE;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code)
{
    if (!IN) __real_exit(code);
    EXIT_CODE = code;
    longjmp(JB, 1);
}
extern "C" int __real_fileno(FILE *);
extern "C" int __wrap_fileno(FILE *f)
{
    int k = 1000;
    for (auto &x : S.open) { if (x.first == f) return k; k++; }
    return __real_fileno(f);
}
extern "C" int __real_ftruncate(int, off_t);
extern "C" int __wrap_ftruncate(int fd, off_t n)
{
    int k = 1000;
    for (auto &x : S.open) {
        if (k++ != fd) continue;
        S.closing = "truncate " + x.second->name;
        int m = fault_now(WRITE);
        S.closing.clear();
        if (m == F_ERR || m == F_EOF_OR_HALF) { errno = EIO; return -1; }
        x.second->data->resize(n);
        if (S.on_change) S.on_change();
        return 0;
    }
    return __real_ftruncate(fd, n);
}
static int rm(const char *n)
{
    if (!S.files.count(n)) { errno = ENOENT; return -1; }
    S.files.erase(n);
    if (S.on_change) S.on_change();
    return 0;
}
extern "C" int __real_remove(const char *);
extern "C" int __wrap_remove(const char *n) { return S.all ? rm(n) : __real_remove(n); }
extern "C" int __real_unlink(const char *);
extern "C" int __wrap_unlink(const char *n) { return S.all ? rm(n) : __real_unlink(n); }
extern "C" int __real_rename(const char *, const char *);
extern "C" int __wrap_rename(const char *a, const char *b)
{
    if (!S.all) return __real_rename(a, b);
    if (!S.files.count(a)) { errno = ENOENT; return -1; }
    S.files[b] = S.files[a];
    S.files.erase(a);
    if (S.on_change) S.on_change();
    return 0;
}
// The state file holds raw memory, addresses of buffers included; memory handed out to the
// program is therefore the same in every run.
static char ARENA[1 << 16] __attribute__((aligned(16)));
static size_t ARENA_USED;
extern "C" void *__real_malloc(size_t);
extern "C" void *__wrap_malloc(size_t n)
{
    if (!IN) return __real_malloc(n);
    size_t at = ARENA_USED;
    if (n > sizeof(ARENA) - at - 16) return nullptr;
    ARENA_USED += (n + 15) / 16 * 16;
    return ARENA + at;
}
extern "C" void __real_free(void *);
extern "C" void __wrap_free(void *p)
{
    if ((char *)p >= ARENA && (char *)p < ARENA + sizeof(ARENA)) return;
    __real_free(p);
}
static void __attribute__((noinline)) clear_stack()
{
    volatile char b[1 << 16];
    for (size_t i = 0; i < sizeof(b); i++) b[i] = 0x5a;
}
static Bytes mk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}
struct Scenario { std::string name; Bytes patch, from, out; };
// A persistent state: every file but from and patch.
typedef std::map<std::string, Bytes> Disk;
static Disk disk_now()
{
    Disk d;
    for (auto &f : S.files) if (f.first != "from" && f.first != "patch") d[f.first] = *f.second;
    return d;
}
static uint64_t dkey(const Disk &d)
{
    uint64_t h = 1469598103934665603ull;
    for (auto &f : d) h = fnv(f.second, fnv(f.first.data(), f.first.size(), h));
    return h;
}
static std::string dname(const Disk &d)
{
    std::string s;
    for (auto &f : d) s += " " + f.first + "=" + (f.first == "to" ? hex(f.second, 40) : strf("%zu bytes", f.second.size()));
    return s.empty() ? " (no files)" : s;
}
struct Out { int status; bool finished; Disk disk; };
static Out run(const Scenario &sc, const Disk &d, int size, int after, int buf)
{
    S.files.clear();
    S.files["from"] = std::make_shared<Bytes>(sc.from);
    S.files["patch"] = std::make_shared<Bytes>(sc.patch);
    for (auto &f : d) S.files[f.first] = std::make_shared<Bytes>(f.second);
    S.bufmode = buf;
    S.ops = S.calls = 0;
    S.visible = false;
    S.kinds.clear();
    std::string a = std::to_string(size), b = std::to_string(after);
    const char *av[] = {"dump-restore", "from", "patch", "to", a.c_str(), b.c_str(), NULL};
    memset(ARENA, 0xa5, sizeof(ARENA));
    ARENA_USED = 0;
    clear_stack();
    IN = S.all = true;
    if (setjmp(JB) == 0) EXIT_CODE = ex_main(6, av);
    // leaving the process closes what is open
    while (!S.open.empty()) __wrap_fclose(S.open.begin()->first);
    IN = S.all = false;
    Out o;
    o.status = EXIT_CODE & 255;
    o.disk = disk_now();
    // a run is the last one when it went through without leaving a state to go on from
    o.finished = o.status == 0 && !o.disk.count("state.bin");
    return o;
}
// How much of the to-data the state file says is written; -1 when it can not be restored.
static const Bytes *STATE;
static size_t STATE_POS;
static int64_t counted(const Disk &d, size_t patch_size)
{
    if (!d.count("state.bin")) return -1;
    STATE = &d.at("state.bin");
    STATE_POS = 0;
    static detools_apply_patch_t a;
    memset(&a, 0xa5, sizeof a);
    detools_apply_patch_init(&a, [](void *, uint8_t *, size_t) { return -1; }, [](void *, int) { return 0; }, patch_size, [](void *, const uint8_t *, size_t) { return -1; }, NULL);
    int r = detools_apply_patch_restore(&a, [](void *, void *p, size_t n) {
        if (n > STATE->size() - STATE_POS) return -1;
        memcpy(p, STATE->data() + STATE_POS, n);
        STATE_POS += n;
        return 0;
    });
    return r != 0 ? -1 : (int64_t)detools_apply_patch_get_to_offset(&a);
}
static void explore(Ctx &c, const Scenario &sc, int buf)
{
    struct P { Disk d; std::string how; bool dumped; };
    std::vector<P> q;
    std::unordered_set<uint64_t> seen;
    int n = sc.patch.size();
    std::string name = sc.name + strf(", buffering %d", BUFS[buf]);
    auto arrive = [&](const Disk &d, const std::string &how, bool dumped) {
        c.count(2);
        if (seen.insert(dkey(d)).second) q.push_back({d, how, dumped});
    };
    S.on_change = nullptr;
    S.f[0] = S.f[1] = Fault();
    arrive({}, "nothing done", false);
    arrive({{"to", mk(sc.out.size() + 5, 77)}}, "an old to file", false);
    uint64_t finishes = 0;
    for (size_t qi = 0; qi < q.size(); qi++) {
        P p = q[qi];
        c.count(1);
        c.tick();
        bool can_finish = false, starts_over = false;
        for (int size = 0; size <= n + 1; size++)
            for (int after : {0, 1, 3, n}) {
                if (after && size + after > n + 1) continue;
                std::string what = p.how + strf("; run with %d %d", size, after);
                std::vector<Disk> snaps;
                S.on_change = [&]() { snaps.push_back(disk_now()); };
                Out o = run(sc, p.d, size, after, buf);
                S.on_change = nullptr;
                c.count(3);
                if (o.finished) {
                    if (o.disk["to"] != sc.out) c.fail(name + ": " + what + ": the last run finished, to file " + hex(o.disk["to"], 60) + " expected " + hex(sc.out, 60) + "; disk before:" + dname(p.d));
                    finishes++;
                    can_finish = true;
                } else {
                    if (o.status == 0) arrive(o.disk, what, true);
                    else { starts_over |= !o.disk.count("state.bin"); arrive(o.disk, what + strf(" (exit %d)", o.status), p.dumped); }
                }
                for (size_t i = 0; i < snaps.size(); i++) {
                    // known finding: the state is stored while the data it counts is in a stdio buffer, which the end of the run writes
                    int64_t n = counted(snaps[i], sc.patch.size());
                    if (n > (int64_t)snaps[i]["to"].size() && n <= (int64_t)o.disk["to"].size()) {
                        c.finding("state-before-data", name + ": " + what + strf(", killed after change %zu: the state counts %lld bytes, the to file has %zu", i + 1, (long long)n, snaps[i]["to"].size()));
                        continue;
                    }
                    arrive(snaps[i], what + strf(", killed after change %zu", i + 1), true);
                }
                // failing operations: status 0 only if the run did what it should
                int64_t ops = S.ops;
                if (size == 0 || after > 1 || qi % (c.thorough ? 5 : BUFS[buf] ? 31 : 97)) continue;
                bool first_ok = o.status == 0;
                for (int64_t i = 0; i < ops; i++)
                    for (int m = 0; m < 2; m++) {
                        S.f[0] = {i, m, true};
                        S.fault_site.clear();
                        Out u = run(sc, p.d, size, after, buf);
                        S.f[0] = Fault();
                        std::string site = S.fault_site;
                        // known findings: results that the program does not look at
                        bool unseen = site == "close to" || site == "close state.bin" || site == "truncate to";
                        for (char &x : site) if (x == ' ') x = '-';
                        auto wrong = [&](const std::string &t) { if (unseen) c.finding("unchecked-" + site, t); else c.fail(t); };
                        std::string w = what + strf(", operation %lld of %s fails (mode %d)", (long long)i, S.kinds.c_str(), m);
                        c.count(0);
                        if (u.status != 0) continue;
                        if (!first_ok) { if (u.finished && u.disk["to"] != sc.out) wrong(name + ": " + w + ": exit status 0 with a wrong to file"); continue; }
                        if (u.finished) {
                            if (u.disk["to"] != sc.out) wrong(name + ": " + w + ": exit status 0 but the to file is " + hex(u.disk["to"], 60) + ", expected " + hex(sc.out, 60));
                        } else if (!o.finished) {
                            // it must be possible to go on from here: some amount finishes
                            bool ok = false;
                            for (int s2 = 1; s2 <= n && !ok; s2++) {
                                Out z = run(sc, u.disk, s2, 0, buf);
                                c.count(0);
                                if (z.finished && z.disk["to"] != sc.out) wrong(name + ": " + w + strf(" with exit status 0; then %d", s2) + ": finished with a wrong to file");
                                ok = z.finished;
                            }
                            if (!ok) wrong(name + ": " + w + ": exit status 0 but it is not possible to go on");
                        }
                    }
            }
        if (!can_finish && !starts_over) c.fail(name + ": from " + p.how + ": no amount finishes, and no run starts over; disk" + dname(p.d));
        if (!can_finish && p.d.empty()) c.fail(name + ": a fresh start can not finish");
    }
    c.distinct_add(fnv(sc.patch, buf));
    c.sample(name + strf(": %zu states, %llu finishing runs", q.size(), (unsigned long long)finishes));
}
static void bad(Ctx &c, const Scenario &sc)
{
    // damaged patches and a short from file: a run that fails exits non-zero
    S.f[0] = S.f[1] = Fault();
    for (size_t k = 0; k < sc.patch.size(); k++)
        for (int x = 0; x < 256; x += 1) {
            Scenario t = sc;
            if (x) t.patch[k] ^= x; else t.patch.resize(k);
            Ref r = ref_seq(t.from, t.patch);
            for (int size : {(int)t.patch.size(), (int)t.patch.size() - 1}) {
                if (size < 1) continue;
                Out o = run(t, {}, size, 0, 0);
                c.count(0);
                c.tick();
                std::string w = sc.name + strf(", byte %zu xor %02x (00: cut), amount %d", k, x, size);
                if (o.status == 0 && !o.finished) {
                    // a first part was applied; how much of it the state covers is up to the program
                    if (size == (int)t.patch.size()) c.fail(w + ": all given, neither finished nor failed");
                    Disk d = o.disk;
                    bool fin = false;
                    for (int s2 = 1; s2 <= (int)t.patch.size(); s2++) {
                        o = run(t, d, s2, 0, 0);
                        c.count(0);
                        if (o.finished && (r.v == REJECT || o.disk["to"] != r.out)) c.fail(w + strf(" then %d: exit status 0 for a damaged patch", s2));
                        fin |= o.finished;
                    }
                    if (!fin && r.v == ACCEPT) c.fail(w + ": no amount finishes a valid patch");
                    continue;
                }
                if (o.finished && (r.v == REJECT || o.disk["to"] != r.out)) c.fail(w + ": exit status 0 for a damaged patch");
                if (!o.finished && r.v == ACCEPT && size == (int)t.patch.size()) c.fail(w + strf(": exit status %d for a valid patch", o.status));
            }
        }
    for (size_t k = 0; k < sc.from.size(); k++) {
        Scenario t = sc;
        t.from.resize(k);
        Ref r = ref_seq(t.from, t.patch);
        Out o = run(t, {}, t.patch.size(), 0, 0);
        if (o.finished && (r.v == REJECT || o.disk["to"] != r.out)) c.fail(sc.name + strf(", from cut to %zu: exit status 0", k));
    }
}
static void args(Ctx &c)
{
    Scenario sc;
    sc.from = mk(4, 1);
    sc.patch = seq_patch({{mk(3, 1), {}, 0}}, {C_NONE, 0});
    // wrong number of arguments and negative amounts
    for (int n = 1; n <= 7; n++) {
        if (n == 6) continue;
        const char *av[9] = {"dump-restore", "from", "patch", "to", "3", "0", "0", NULL};
        av[n] = NULL;
        S.files.clear();
        S.files["from"] = std::make_shared<Bytes>(sc.from);
        S.files["patch"] = std::make_shared<Bytes>(sc.patch);
        IN = S.all = true;
        EXIT_CODE = -1;
        if (setjmp(JB) == 0) EXIT_CODE = ex_main(n, av);
        while (!S.open.empty()) __wrap_fclose(S.open.begin()->first);
        IN = S.all = false;
        if (!(EXIT_CODE & 255)) c.fail(strf("exit status 0 with %d arguments", n - 1));
    }
    Disk d;
    for (auto pr : std::vector<std::pair<int, int>>{{-1, 0}, {0, -1}, {3, -1}})
        if (run(sc, d, pr.first, pr.second, 0).status == 0) c.fail(strf("exit status 0 with amounts %d %d", pr.first, pr.second));
}
static void enumerate(Ctx &c)
{
    if (!freopen("/dev/null", "w", stdout)) abort();
    if (c.next()) { c.desc("arguments"); args(c); }
    std::vector<Scenario> v;
    for (Repr r : std::vector<Repr>{{C_NONE, 0}, {C_CRLE, -3}, {C_HS, 0}}) {
        std::vector<std::pair<Bytes, std::vector<Rec>>> base;
        base.push_back({mk(8, 1), {{mk(3, 2), mk(2, 3), 1}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}}});
        base.push_back({mk(4, 1), {{{}, mk(5, 7), 0}}});
        base.push_back({mk(8, 1), {{mk(8, 7), {}, 0}}});
        base.push_back({Bytes(40, 7), {{Bytes(30, 0), mk(2, 3), -30}, {Bytes(30, 0), Bytes(12, 0x55), 0}}});
        if (c.thorough) base.push_back({mk(140, 1, 1), {{Bytes(139, 0), mk(2, 3), -3}, {mk(4, 2), {}, 0}}});
        for (auto &b : base) {
            Scenario sc;
            sc.from = b.first;
            sc.patch = seq_patch(b.second, r);
            recs_apply(b.first, b.second, sc.out);
            sc.name = strf("%zu bytes, %zu records, %s", sc.out.size(), b.second.size(), cname(r.comp));
            if (r.comp == C_NONE && sc.patch.size() > 60) continue;
            v.push_back(sc);
        }
    }
    for (auto &sc : v) {
        for (int buf : {0, 1, 3}) {
            if (!c.thorough && BUFS[buf] == 0 && sc.out.size() > 20) continue;
            if (!c.next()) continue;
            c.desc(sc.name + strf(" buffering %d, patch ", BUFS[buf]) + hex(sc.patch));
            explore(c, sc, buf);
        }
        if (!c.next()) continue;
        c.desc(sc.name + " damaged, patch " + hex(sc.patch));
        bad(c, sc);
    }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
