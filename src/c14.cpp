// C14: the exit status of the C command line tells the truth.
// c/main.c is compiled with main renamed and run in this process on simulated files (sim.hpp);
// exit() comes back here.  "--cli" runs it as a real process on real files.
#undef main
#include "sim.hpp"
#include <setjmp.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
static uint64_t fnv_s(const std::string &s) { return fnv(s.data(), s.size()); }
#include <sys/resource.h>

extern "C" int cli_main(int argc, const char *argv[]);
static jmp_buf JB;
static bool IN_CLI;
static int EXIT_CODE;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code)
{
    if (!IN_CLI) __real_exit(code);
    EXIT_CODE = code;
    longjmp(JB, 1);
}
static int CAP = -1;
struct Run { int status; std::string out; };
static Run run_cli(const std::vector<std::string> &args)
{
    std::vector<const char *> av;
    for (auto &a : args) av.push_back(a.c_str());
    av.push_back(NULL);
    fflush(stdout);
    fflush(stderr);
    int o1 = dup(1), o2 = dup(2);
    if (ftruncate(CAP, 0) || lseek(CAP, 0, SEEK_SET)) abort();
    dup2(CAP, 1);
    dup2(CAP, 2);
    IN_CLI = S.all = true;
    if (setjmp(JB) == 0) EXIT_CODE = cli_main(args.size(), av.data());
    IN_CLI = S.all = false;
    fflush(stdout);
    fflush(stderr);
    dup2(o1, 1);
    dup2(o2, 2);
    close(o1);
    close(o2);
    Run r;
    r.status = EXIT_CODE & 255;
    char b[4096];
    lseek(CAP, 0, SEEK_SET);
    ssize_t n = read(CAP, b, sizeof b);
    if (n > 0) r.out.assign(b, n);
    return r;
}
static Bytes mk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}
static std::string argstr(const std::vector<std::string> &a)
{
    std::string s;
    for (auto &x : a) s += " '" + x + "'";
    return s;
}
static std::vector<Repr> RS = {{C_NONE, 0}, {C_CRLE, -3}, {C_HS, 0}, {C_LZMA, 0}};
struct Scenario { std::string name; bool inp; Bytes patch, from, out; int verdict; };
static std::vector<Scenario> scenarios(bool thorough)
{
    std::vector<Scenario> v;
    for (Repr r : RS) {
        std::vector<std::pair<Bytes, std::vector<Rec>>> base;
        base.push_back({mk(12, 1), {{mk(3, 2), mk(2, 3), 1}, {{}, {}, -2}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}}});
        base.push_back({mk(4, 1), {}});
        base.push_back({mk(1, 1), {{{}, mk(1, 2), 0}}});
        base.push_back({mk(300, 1, 1), {{mk(260, 2, 1), mk(330, 3, 0), -260}, {{}, {}, 0}, {mk(200, 4), mk(1, 9), 64}}});
        base.push_back({{}, {{{}, mk(20, 2), 0}}});
        base.push_back({mk(256, 1, 1), {{mk(256, 2, 1), {}, 0}}});       // to-size a multiple of 256
        for (auto &b : base) {
            Bytes out, p = seq_patch(b.second, r);
            recs_apply(b.first, b.second, out);
            std::string n = strf("sequential %zu bytes %s%s", out.size(), cname(r.comp), b.first.empty() ? ", empty from" : "");
            v.push_back({n, false, p, b.first, out, 1});
            for (size_t k = 0; k < p.size(); k += p.size() > 60 ? 7 : 1) {
                Bytes t(p.begin(), p.begin() + k);
                Ref q = ref_seq(b.first, t);
                v.push_back({n + strf(" patch cut to %zu", k), false, t, b.first, q.out, q.v == REJECT || k == 0 ? 0 : 2});
                for (int x : {0x01, 0x80, 0x41, 0x7f}) {
                    t = p;
                    t[k] ^= x;
                    q = ref_seq(b.first, t);
                    v.push_back({n + strf(" patch byte %zu xor %02x", k, x), false, t, b.first, q.out, q.v == REJECT ? 0 : q.v == ACCEPT ? 1 : 2});
                }
            }
            for (size_t k = 0; k < std::min<size_t>(b.first.size(), 12); k++) {
                Bytes f(b.first.begin(), b.first.begin() + k);
                Ref q = ref_seq(f, p);
                v.push_back({n + strf(" from cut to %zu", k), false, p, f, q.out, q.v == REJECT ? 0 : 2});
            }
        }
        struct IB { Geo g; int style; };
        for (auto &b : std::vector<IB>{{{12, 4, 4, 7, 9}, 2}, {{8, 4, 4, 4, 0}, 0}, {{900, 300, 300, 520, 580}, 1}, {{512, 256, 256, 200, 256}, 1}}) {
            Bytes from = mk(b.g.mem, 5, b.g.mem > 100), out = mk(b.g.to, 6, b.g.mem > 100);
            Bytes p = inp_patch(from, b.g, out, b.style, r);
            std::string n = strf("in-place mem %d to %d %s", (int)b.g.mem, (int)b.g.to, cname(r.comp));
            v.push_back({n, true, p, from, out, 1});
            for (size_t k = 0; k < p.size(); k += p.size() > 60 ? 7 : 1) {
                Bytes t(p.begin(), p.begin() + k);
                RefInp q = ref_inp(from, t);
                v.push_back({n + strf(" patch cut to %zu", k), true, t, from, q.out, q.v == REJECT || k == 0 ? 0 : 2});
            }
        }
    }
    return v;
}
static std::vector<std::string> args_of(const Scenario &sc)
{
    if (sc.inp) return {"detools", "apply_patch_in_place", "sim:from", "sim:patch"};
    return {"detools", "apply_patch", "sim:from", "sim:patch", "sim:to"};
}
static void put_files(const Scenario &sc)
{
    S.files.clear();
    S.files["sim:from"] = std::make_shared<Bytes>(sc.from);
    S.files["sim:patch"] = std::make_shared<Bytes>(sc.patch);
}
static int64_t one(Ctx &c, const Scenario &sc, int buf, Fault f, const std::string &what)
{
    auto reset = [&]() {
        put_files(sc);
        S.bufmode = buf;
        S.ops = S.calls = 0;
        S.visible = false;
        S.kinds.clear();
        S.f[0] = f;
    };
    // what the library says in the same situation
    reset();
    int r = sc.inp ? detools_apply_patch_in_place_filenames("sim:from", "sim:patch", NULL, NULL) : detools_apply_patch_filenames("sim:from", "sim:patch", "sim:to");
    std::string text = r < 0 ? detools_error_as_string(r) : "";
    reset();
    Run u = run_cli(args_of(sc));
    c.count(0);
    c.tick();
    Bytes got;
    if (sc.inp) { got = *S.files["sim:from"]; if (got.size() > sc.out.size()) got.resize(sc.out.size()); }
    else if (S.files.count("sim:to")) got = *S.files["sim:to"];
    if (u.status == 0) {
        if (S.visible) c.fail(what + ": a file operation failed but the exit status is 0");
        if (sc.verdict == 0) c.fail(what + ": exit status 0 for an invalid patch");
        if (got != sc.out) c.fail(what + ": exit status 0 but the result is not complete");
        if (u.out.find("error") != std::string::npos) c.fail(what + ": exit status 0 with an error message: " + u.out);
    } else {
        if (sc.verdict == 1 && !S.visible) c.fail(what + strf(": exit status %d although nothing failed", u.status));
        if (r < 0 ? u.out.find(text) == std::string::npos : u.out.empty())
            c.fail(what + strf(": exit status %d, output \"%s\" does not contain \"%s\"", u.status, u.out.c_str(), text.c_str()));
    }
    if (sc.verdict == 1 && f.at < 0) c.sample(what + strf(": exit status %d, %lld operations", u.status, (long long)S.ops));
    return S.ops;
}
static void faults(Ctx &c, const Scenario &sc)
{
    for (int buf : {0, 1, 3}) {
        std::string what = sc.name + strf(", buffering %d", BUFS[buf]);
        int64_t n = one(c, sc, buf, Fault(), what);
        c.distinct_add(fnv_s(what));
        int64_t step = sc.verdict == 1 || c.thorough ? 1 : 5;
        for (int64_t i = 0; i < n; i += step)
            for (int m = 0; m < NMODES; m++) {
                Fault f = {i, m, false};
                std::string w = what + strf(", operation %lld fails (mode %d)", (long long)i, m);
                one(c, sc, buf, f, w);
                c.distinct_add(fnv_s(w));
            }
    }
}
static void argument_shapes(Ctx &c)
{
    Bytes from = mk(12, 1), mem = mk(12, 5), to = mk(9, 6);
    Geo g = {12, 4, 4, 7, 9};
    std::vector<Rec> recs = {{mk(3, 2), mk(2, 3), 1}};
    Bytes sp = seq_patch(recs, {C_NONE, 0}), out;
    recs_apply(from, recs, out);
    Bytes ip = inp_patch(mem, g, to, 2, {C_NONE, 0});
    std::vector<std::string> al = {"apply_patch", "apply_patch_in_place", "apply_patch_", "", "-h", "sim:from", "sim:patch", "sim:mem", "sim:ipatch", "sim:to", "sim:missing"};
    std::vector<std::string> a;
    S.f[0] = S.f[1] = Fault();
    S.bufmode = 0;
    std::function<void(int)> rec = [&](int depth) {
        if (depth == 0) {
            std::vector<std::string> args = {"detools"};
            args.insert(args.end(), a.begin(), a.end());
            S.files.clear();
            S.files["sim:from"] = std::make_shared<Bytes>(from);
            S.files["sim:patch"] = std::make_shared<Bytes>(sp);
            S.files["sim:mem"] = std::make_shared<Bytes>(mem);
            S.files["sim:ipatch"] = std::make_shared<Bytes>(ip);
            auto before = S.files;
            for (auto &f : before) f.second = std::make_shared<Bytes>(*f.second);
            S.ops = S.calls = 0;
            S.visible = false;
            Run u = run_cli(args);
            c.count(0);
            c.tick();
            std::string what = "detools" + argstr(a);
            bool known = false, ok = false;
            if (a.size() == 4 && a[0] == "apply_patch" && a[3] != a[1] && a[3] != a[2]) {
                known = true;
                ok = before.count(a[1]) && before.count(a[2]);
                Bytes exp;
                if (ok) {
                    Ref q = ref_seq(*before[a[1]], *before[a[2]]);
                    if (q.v == EITHER) known = false;
                    ok = q.v == ACCEPT;
                    exp = q.out;
                }
                if (known && ok && *S.files[a[3]] != exp) c.fail(what + ": the to-file is wrong");
            } else if (a.size() == 3 && a[0] == "apply_patch_in_place" && a[1] != a[2]) {
                known = true;
                ok = before.count(a[1]) && before.count(a[2]);
                Bytes exp;
                if (ok) {
                    RefInp q = ref_inp(*before[a[1]], *before[a[2]]);
                    if (q.v == EITHER) known = false;
                    ok = q.v == ACCEPT;
                    exp = q.out;
                }
                if (known && ok) {
                    Bytes got = *S.files[a[1]];
                    got.resize(exp.size());
                    if (got != exp) c.fail(what + ": the memory file is wrong");
                }
            } else if (!((a.size() == 4 && a[0] == "apply_patch") || (a.size() == 3 && a[0] == "apply_patch_in_place"))) {
                known = true;           // not a request at all
                for (auto &f : before) if (!S.files.count(f.first) || *S.files[f.first] != *f.second) c.fail(what + ": changed file " + f.first);
                if (S.files.size() != before.size()) c.fail(what + ": created a file");
            }
            if (known && ok != (u.status == 0)) c.fail(what + strf(": exit status %d, output %s", u.status, u.out.c_str()));
            if (u.status != 0 && u.out.empty()) c.fail(what + strf(": exit status %d without a diagnostic", u.status));
            c.distinct_add(fnv_s(what));
            return;
        }
        for (auto &s : al) {
            a.push_back(s);
            rec(depth - 1);
            a.pop_back();
        }
    };
    for (int len = 0; len <= (c.thorough ? 6 : 5); len++) {
        if (len < 3) { if (c.next()) { c.desc(strf("arguments, length %d", len)); rec(len); } continue; }
        for (auto &x : al)
            for (auto &y : al) {
                if (!c.next()) continue;
                c.desc(strf("arguments, length %d starting '%s' '%s'", len, x.c_str(), y.c_str()));
                a = {x, y};
                rec(len - 2);
                a.clear();
            }
    }
}
static void strings(Ctx &c)
{
    std::set<std::string> seen;
    std::string unknown = detools_error_as_string(1000);
    std::vector<int> codes;
    for (int i = 1; i <= 27; i++) codes.push_back(i);
    for (int i : codes) {
        std::string s = detools_error_as_string(i);
        if (s.empty() || s == unknown || !seen.insert(s).second) c.fail(strf("error code %d has the text \"%s\"", i, s.c_str()));
    }
    auto chk = [&](int v) {
        c.count(0);
        std::string s = detools_error_as_string(v);
        unsigned a = v < 0 ? 0u - (unsigned)v : v;
        if (a == 0) return;
        if (a <= 27 ? s != detools_error_as_string(a) || s == unknown : s != unknown) c.fail(strf("value %d has the text \"%s\"", v, s.c_str()));
    };
    for (int i = -70000; i <= 70000; i++) chk(i);
    for (int k = 8; k < 32; k++) for (int64_t d = -40; d <= 40; d++)
        for (int64_t s : {1, -1}) { int64_t v = s * ((1ll << k) + d); if (v > -2147483648ll && v <= 2147483647ll) chk((int)v); }
    c.distinct_add(1);
}
// Real processes on real files, with the file size limited to every value: a full disk.
static std::string DIR, SELF;
static void wr(const std::string &n, const Bytes &b)
{
    int fd = open(n.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size()) abort();
    close(fd);
}
static Bytes rdf(const std::string &n)
{
    Bytes b;
    int fd = open(n.c_str(), O_RDONLY);
    if (fd < 0) return b;
    uint8_t t[65536];
    ssize_t k;
    while ((k = read(fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + k);
    close(fd);
    return b;
}
static int spawn(const std::vector<std::string> &args, int64_t limit, std::string &out)
{
    std::string of = DIR + "/stdout";
    pid_t p = fork();
    if (p == 0) {
        int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        int pfd[2];
        (void)pfd;
        dup2(fd, 1);
        dup2(fd, 2);
        if (limit >= 0) {
            // the output goes to a pipe-like place not subject to the limit
            signal(SIGXFSZ, SIG_IGN);
            struct rlimit rl = {(rlim_t)limit, (rlim_t)limit};
            setrlimit(RLIMIT_FSIZE, &rl);
        }
        std::vector<char *> av = {(char *)SELF.c_str(), (char *)"--cli"};
        for (auto &a : args) av.push_back((char *)a.c_str());
        av.push_back(NULL);
        execv(SELF.c_str(), av.data());
        _exit(126);
    }
    int st;
    waitpid(p, &st, 0);
    Bytes b = rdf(of);
    out.assign(b.begin(), b.end());
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
static void real(Ctx &c)
{
    std::string f = DIR + "/from", p = DIR + "/patch", t = DIR + "/to";
    std::vector<Rec> recs = {{mk(260, 2, 1), mk(330, 3, 0), -260}, {{}, {}, 0}, {mk(200, 4), mk(1, 9), 64}};
    Bytes from = mk(300, 1, 1), out;
    recs_apply(from, recs, out);
    for (Repr r : RS)
        for (size_t lim = 0; lim <= out.size() + 40; lim += (c.thorough || lim + 20 > out.size() || lim < 20) ? 1 : 37) {
            if (!c.next()) continue;
            std::string what = strf("real process, %s, file size limit %zu", cname(r.comp), lim);
            c.desc(what);
            wr(f, from);
            wr(p, seq_patch(recs, r));
            unlink(t.c_str());
            std::string o;
            int st = spawn({"apply_patch", f, p, t}, lim, o);
            c.count(0);
            c.distinct_add(fnv_s(what));
            bool complete = rdf(t) == out;
            if ((st == 0) != (lim >= out.size()) || (st == 0 && !complete)) c.fail(what + strf(": exit status %d, result %s", st, complete ? "complete" : "not complete"));
        }
    struct T { std::vector<std::string> args; bool ok; std::string note; };
    std::vector<T> ts = {
        {{"apply_patch", f, p, t}, true, ""}, {{"apply_patch", f, p, "/dev/full"}, false, "full device"}, {{"apply_patch", f, p, DIR}, false, "to is a directory"},
        {{"apply_patch", f, p, DIR + "/none/to"}, false, "no such directory"}, {{"apply_patch", DIR, p, t}, false, "from is a directory"},
        {{"apply_patch", f, DIR, t}, false, "patch is a directory"}, {{"apply_patch", f + "x", p, t}, false, "no from"}, {{"apply_patch", f, p + "x", t}, false, "no patch"},
        {{"apply_patch", f, "/dev/null", t}, false, "empty patch"}, {{"apply_patch", "/dev/null", p, t}, false, "empty from"},
        {{"apply_patch_in_place", f, p}, false, "wrong type"}, {{"apply_patch_in_place", f + "x", p}, false, "no memory"}, {{}, false, "usage"}};
    for (Repr r : RS)
        for (auto &x : ts) {
            if (!c.next()) continue;
            std::string what = "real process, " + std::string(cname(r.comp)) + argstr(x.args) + " " + x.note;
            c.desc(what);
            wr(f, from);
            wr(p, seq_patch(recs, r));
            unlink(t.c_str());
            std::string o;
            int st = spawn(x.args, -1, o);
            c.count(0);
            c.distinct_add(fnv_s(what));
            if ((st == 0) != x.ok) c.fail(what + strf(": exit status %d, output %s", st, o.c_str()));
            if (x.ok && rdf(t) != out) c.fail(what + ": wrong result");
            if (!x.ok && o.empty()) c.fail(what + ": no diagnostic");
        }
}
static void enumerate(Ctx &c)
{
    CAP = memfd_create("cap", 0);
    DIR = strf("/tmp/verif-c14.%d", (int)getpid());
    mkdir(DIR.c_str(), 0700);
    if (c.next()) { c.desc("error strings"); strings(c); }
    argument_shapes(c);
    for (auto &sc : scenarios(c.thorough)) {
        if (!c.next()) continue;
        c.desc(sc.name + " patch " + hex(sc.patch, 300));
        faults(c, sc);
    }
    real(c);
    for (auto n : {"/from", "/patch", "/to", "/stdout"}) unlink((DIR + n).c_str());
    rmdir(DIR.c_str());
}
int main(int argc, char **argv)
{
    char self[4096];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    SELF.assign(self, n > 0 ? n : 0);
    if (argc > 1 && !strcmp(argv[1], "--cli")) {
        argv[1] = argv[0];
        return cli_main(argc - 1, (const char **)argv + 1);
    }
    return runner_main(argc, argv, enumerate);
}
