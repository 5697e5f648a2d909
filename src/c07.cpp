// C07: all memory and file handles are released whatever happens.
// The program's malloc family is replaced by one that keeps a ledger of everything allocated
// while the library runs (liblzma and stdio included) and can fail any allocation; the
// library's stdio calls are wrapped to keep a ledger of FILEs and to fail any of them.
#include "env.hpp"
#include "inpmodel.hpp"
#include <errno.h>
#include <sys/stat.h>

// ---- allocation ledger -------------------------------------------------------------
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
}
static bool TRACK;
static void *LEDGER[4096];
static int NLEDGER;
static int64_t ALLOCS, FAIL_ALLOC = -1;
static bool FAIL_REST, ALLOC_FAILED;
static const char *LEDGER_ERR;
static bool deny()
{
    int64_t a = ALLOCS++;
    if (FAIL_ALLOC >= 0 && (FAIL_REST ? a >= FAIL_ALLOC : a == FAIL_ALLOC)) {
        ALLOC_FAILED = true;
        errno = ENOMEM;
        return true;
    }
    return false;
}
static void add(void *p)
{
    if (p && NLEDGER < 4096) LEDGER[NLEDGER++] = p;
}
static bool del(void *p)
{
    for (int i = NLEDGER - 1; i >= 0; i--)
        if (LEDGER[i] == p) { LEDGER[i] = LEDGER[--NLEDGER]; return true; }
    return false;
}
extern "C" void *malloc(size_t n)
{
    if (TRACK && deny()) return NULL;
    void *p = __libc_malloc(n);
    if (TRACK) add(p);
    return p;
}
extern "C" void *calloc(size_t a, size_t b)
{
    if (TRACK && deny()) return NULL;
    void *p = __libc_calloc(a, b);
    if (TRACK) add(p);
    return p;
}
extern "C" void *realloc(void *q, size_t n)
{
    if (TRACK && deny()) return NULL;
    if (TRACK && q && !del(q)) LEDGER_ERR = "realloc of a block that is not allocated";
    void *p = __libc_realloc(q, n);
    if (TRACK) add(p);
    return p;
}
extern "C" void free(void *p)
{
    if (TRACK && p && !del(p)) { LEDGER_ERR = "free of a block that is not allocated (or freed already)"; return; }
    __libc_free(p);
}

// ---- FILE ledger ---------------------------------------------------------------------
static std::vector<FILE *> FILES;
static int64_t IOCALLS, FAIL_IO = -1, FAIL_IO2 = -1;
static bool io_fault()
{
    int64_t n = IOCALLS++;
    return n == FAIL_IO || n == FAIL_IO2;
}
struct Off { bool t; Off() : t(TRACK) { TRACK = false; } ~Off() { TRACK = t; } };
#define REAL(ret, name, args) extern "C" ret __real_##name args;
REAL(FILE *, fopen, (const char *, const char *))
REAL(int, fclose, (FILE *))
REAL(size_t, fread, (void *, size_t, size_t, FILE *))
REAL(size_t, fwrite, (const void *, size_t, size_t, FILE *))
REAL(int, fseek, (FILE *, long, int))
REAL(long, ftell, (FILE *))
static void known(FILE *f, const char *what)
{
    for (FILE *g : FILES) if (g == f) return;
    LEDGER_ERR = what;
}
extern "C" FILE *__wrap_fopen(const char *n, const char *m)
{
    if (io_fault()) { errno = EACCES; return NULL; }
    FILE *f = __real_fopen(n, m);
    Off o;
    if (f) FILES.push_back(f);
    return f;
}
extern "C" int __wrap_fclose(FILE *f)
{
    bool bad = io_fault();
    known(f, "fclose of a file that is not open");
    if (LEDGER_ERR) return 0;
    {
        Off o;
        FILES.erase(std::find(FILES.begin(), FILES.end(), f));
    }
    int r = __real_fclose(f);
    return bad ? EOF : r;
}
extern "C" size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f)
{
    known(f, "fread from a file that is not open");
    if (LEDGER_ERR) return 0;
    return io_fault() ? 0 : __real_fread(p, a, b, f);
}
extern "C" size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f)
{
    known(f, "fwrite to a file that is not open");
    if (LEDGER_ERR) return 0;
    return io_fault() ? 0 : __real_fwrite(p, a, b, f);
}
extern "C" int __wrap_fseek(FILE *f, long o, int w)
{
    known(f, "fseek in a file that is not open");
    if (LEDGER_ERR) return 0;
    return io_fault() ? -1 : __real_fseek(f, o, w);
}
extern "C" long __wrap_ftell(FILE *f)
{
    known(f, "ftell in a file that is not open");
    if (LEDGER_ERR) return 0;
    return io_fault() ? -1 : __real_ftell(f);
}

// ---- callbacks with tracking off ---------------------------------------------------------
static int t_from_read(void *a, uint8_t *b, size_t n) { Off o; return env_from_read(a, b, n); }
static int t_from_seek(void *a, int x) { Off o; return env_from_seek(a, x); }
static int t_to_write(void *a, const uint8_t *b, size_t n) { Off o; return env_to_write(a, b, n); }
static int t_patch_read(void *a, uint8_t *b, size_t n) { Off o; return env_patch_read(a, b, n); }
static int t_mem_read(void *a, void *d, uintptr_t s, size_t n) { Off o; return env_mem_read(a, d, s, n); }
static int t_mem_write(void *a, uintptr_t d, void *s, size_t n) { Off o; return env_mem_write(a, d, s, n); }
static int t_mem_erase(void *a, uintptr_t d, size_t n) { Off o; return env_mem_erase(a, d, n); }
static int t_step_set(void *a, int s) { Off o; return env_step_set(a, s); }
static int t_step_get(void *a, int *s) { Off o; return env_step_get(a, s); }
static int t_inp_patch_read(void *a, uint8_t *b, size_t n) { Off o; return env_inp_patch_read(a, b, n); }
static int f_step;
static int f_step_set(void *, int s) { f_step = s; return 0; }
static int f_step_get(void *, int *s) { *s = f_step; return 0; }

struct Scenario { std::string name; bool inp; Bytes patch, from, out; bool valid; };
struct Fault { int64_t alloc = -1; bool rest = false; int64_t call = -1; int64_t io = -1, io2 = -1; };
struct Outcome { int res; int64_t allocs, calls, ios; bool alloc_failed; };
static std::string DIR;

// api: 0 callbacks, 1 one chunk, 2 single bytes, 3 chunks of 7 going on after failures, 4 files
static Outcome drive(Ctx &c, const Scenario &sc, int api, Fault f, const std::string &what)
{
    SeqEnv se;
    InpEnv ie;
    se.from = &sc.from;
    se.patch = ie.patch = &sc.patch;
    se.out_limit = 1 << 16;
    ie.mem = sc.from;
    ie.erased.assign(sc.from.size(), 0);
    se.fail_at = ie.fail_at = f.call;
    se.out.reserve(1 << 12);
    static union { struct detools_apply_patch_t s; struct detools_apply_patch_in_place_t p; } o;
    memset(&o, 0xa5, sizeof o);
    std::string pf = DIR + "/from", pp = DIR + "/patch", pt = DIR + "/to";
    if (api == 4) {
        auto put = [](const std::string &n, const Bytes &b) {
            int fd = open(n.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size()) abort();
            close(fd);
        };
        put(pf, sc.from);
        put(pp, sc.patch);
        unlink(pt.c_str());
        f_step = 0;
    }
    NLEDGER = 0;
    ALLOCS = 0;
    FAIL_ALLOC = f.alloc;
    FAIL_REST = f.rest;
    ALLOC_FAILED = false;
    LEDGER_ERR = NULL;
    IOCALLS = 0;
    FAIL_IO = f.io;
    FAIL_IO2 = f.io2;
    int r;
    size_t n = sc.patch.size();
    TRACK = true;
    if (api == 4) {
        r = sc.inp ? detools_apply_patch_in_place_filenames(pf.c_str(), pp.c_str(), f_step_set, f_step_get)
                   : detools_apply_patch_filenames(pf.c_str(), pp.c_str(), pt.c_str());
    } else if (api == 0) {
        r = sc.inp ? detools_apply_patch_in_place_callbacks(t_mem_read, t_mem_write, t_mem_erase, t_step_set, t_step_get,
                                                            t_inp_patch_read, n, &ie)
                   : detools_apply_patch_callbacks(t_from_read, t_from_seek, t_patch_read, n, t_to_write, &se);
    } else {
        r = sc.inp ? detools_apply_patch_in_place_init(&o.p, t_mem_read, t_mem_write, t_mem_erase, t_step_set, t_step_get, n, &ie)
                   : detools_apply_patch_init(&o.s, t_from_read, t_from_seek, n, t_to_write, &se);
        size_t k = api == 1 ? n : api == 2 ? 1 : 7;
        for (size_t p = 0; p < n && (r == 0 || api == 3); p += k) {
            size_t m = std::min(k, n - p);
            int q = sc.inp ? detools_apply_patch_in_place_process(&o.p, sc.patch.data() + p, m)
                           : detools_apply_patch_process(&o.s, sc.patch.data() + p, m);
            if (r == 0) r = q;
        }
        int q = sc.inp ? detools_apply_patch_in_place_finalize(&o.p) : detools_apply_patch_finalize(&o.s);
        if (r == 0) r = q;
    }
    TRACK = false;
    FAIL_ALLOC = FAIL_IO = FAIL_IO2 = -1;
    c.count(0);
    c.tick();
    if (LEDGER_ERR) c.fail(what + ": " + LEDGER_ERR);
    if (NLEDGER) c.fail(what + strf(": %d heap block(s) still allocated after the update (result %d)", NLEDGER, r));
    if (!FILES.empty()) c.fail(what + strf(": %zu file(s) still open after the update (result %d)", FILES.size(), r));
    if (ALLOC_FAILED && r >= 0 && api != 4) c.fail(what + strf(": an allocation failed, result %d", r));
    return {r, ALLOCS, sc.inp ? ie.calls : se.calls, IOCALLS, ALLOC_FAILED};
}
static void explore(Ctx &c, const Scenario &sc)
{
    for (int api = 0; api < 5; api++) {
        if (api == 4 && sc.from.empty()) continue;
        std::string what = sc.name + strf(", api %d", api);
        Outcome o = drive(c, sc, api, Fault(), what);
        if (sc.valid && o.res != (int)sc.out.size()) c.fail(what + strf(": undisturbed run gave %d", o.res));
        auto mark = [&](int kind, int64_t i) {
            int64_t k[3] = {api, kind, i};
            c.distinct_add(fnv(sc.name.data(), sc.name.size(), fnv(k, sizeof k)));
        };
        for (int64_t i = 0; i < o.allocs; i++)
            for (int rest = 0; rest < 2; rest++) {
                Fault f;
                f.alloc = i;
                f.rest = rest;
                drive(c, sc, api, f, what + strf(", allocation %lld%s fails", (long long)i, rest ? " and all later ones" : ""));
                mark(rest, i);
            }
        if (api != 4)
            for (int64_t i = 0; i < o.calls; i++) {
                Fault f;
                f.call = i;
                Outcome q = drive(c, sc, api, f, what + strf(", callback %lld fails", (long long)i));
                mark(2, i);
                // an allocation failing in an update that is going to fail later
                if (sc.valid && i == o.calls - 1)
                    for (int64_t a = 0; a < q.allocs; a++) {
                        f.alloc = a;
                        drive(c, sc, api, f, what + strf(", callback %lld and allocation %lld fail", (long long)i, (long long)a));
                        mark(3, a);
                    }
            }
        else
            for (int64_t i = 0; i < o.ios; i++) {
                Fault f;
                f.io = i;
                Outcome q = drive(c, sc, api, f, what + strf(", stdio call %lld fails", (long long)i));
                if (sc.valid && q.res >= 0) c.fail(what + strf(", stdio call %lld fails: result %d", (long long)i, q.res));
                mark(4, i);
                for (int64_t j = i + 1; j < q.ios; j++) {
                    f.io2 = j;
                    drive(c, sc, api, f, what + strf(", stdio calls %lld and %lld fail", (long long)i, (long long)j));
                    mark(5 + i, j);
                }
            }
        if (sc.valid) c.sample(what + strf(": %lld allocations, %lld callbacks, %lld stdio calls", (long long)o.allocs, (long long)o.calls, (long long)o.ios));
    }
}
static Bytes mk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}
static void enumerate(Ctx &c)
{
    DIR = strf("/tmp/verif-c07.%d", (int)getpid());
    mkdir(DIR.c_str(), 0700);
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_HS, 0}, {C_HS, 1}, {C_LZMA, 0}, {C_LZMA, 1 << 16}};
    std::vector<Scenario> v;
    std::vector<std::pair<Bytes, std::vector<Rec>>> base;
    base.push_back({mk(12, 1), {{mk(3, 2), mk(2, 3), 1}, {{}, {}, -2}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}}});
    base.push_back({mk(600, 1, 1), {{mk(260, 2, 1), mk(330, 3, 0), -260}, {{}, {}, 0}, {mk(200, 4), mk(1, 9), 64}}});
    base.push_back({mk(4, 1), {}});
    struct IB { Geo g; int style; };
    std::vector<IB> ib = {{{12, 4, 4, 7, 9}, 2}, {{900, 300, 300, 520, 580}, 4}, {{8, 4, 4, 4, 0}, 0}};
    for (Repr r : rs) {
        std::vector<Scenario> w;
        for (size_t i = 0; i < base.size(); i++) {
            Scenario sc;
            sc.name = strf("sequential %zu %s/%d", i, cname(r.comp), r.mode);
            sc.inp = false;
            sc.from = base[i].first;
            sc.patch = seq_patch(base[i].second, r);
            recs_apply(base[i].first, base[i].second, sc.out);
            sc.valid = true;
            w.push_back(sc);
        }
        for (auto &b : ib) {
            Scenario sc;
            sc.name = strf("in-place mem %d seg %d %s/%d", (int)b.g.mem, (int)b.g.seg, cname(r.comp), r.mode);
            sc.inp = true;
            sc.from = mk(b.g.mem, 5, b.g.mem > 100);
            sc.out = mk(b.g.to, 6, b.g.mem > 100);
            sc.patch = inp_patch(sc.from, b.g, sc.out, b.style, r);
            sc.valid = true;
            w.push_back(sc);
        }
        for (auto &sc : w) {
            v.push_back(sc);
            // truncated and damaged: every position of small patches, a spread of large ones
            size_t stride = sc.patch.size() > 120 ? sc.patch.size() / (c.thorough ? 60 : 12) : 1;
            for (size_t n = 1; n < sc.patch.size(); n += stride) {
                Scenario t = sc;
                t.valid = false;
                t.patch.resize(n);
                t.name += strf(" truncated to %zu", n);
                v.push_back(t);
                for (int x : {0x01, 0x80, 0xff}) {
                    t = sc;
                    t.valid = false;
                    t.patch[n - 1] ^= x;
                    t.name += strf(" byte %zu xor %02x", n - 1, x);
                    v.push_back(t);
                }
            }
            Scenario t = sc;
            t.valid = false;
            put(t.patch, {1, 2, 3});
            t.name += " with trailing data";
            v.push_back(t);
        }
    }
    // every heatshrink setting (dynamic builds allocate accordingly)
    for (int h = 0; h < 256; h++) {
        Scenario t;
        t.inp = false;
        t.valid = false;
        t.from = mk(12, 1);
        t.patch = {C_HS, 5, (uint8_t)h, 0x9a, 0x5c, 0x33, 0x81, 0x00, 0x7f};
        t.name = strf("heatshrink setting %02x", h);
        v.push_back(t);
    }
    for (auto &sc : v) {
        if (!c.next()) continue;
        c.desc(sc.name + " patch " + hex(sc.patch, 300));
        explore(c, sc);
    }
    for (auto n : {"/from", "/patch", "/to"}) unlink((DIR + n).c_str());
    rmdir(DIR.c_str());
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
