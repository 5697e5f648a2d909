// Simulated files under real stdio streams, with faults at every operation below stdio and at
// every stdio call.  Link with --wrap for fopen fclose fread fwrite fseek ftell fflush.
#pragma once
#include "env.hpp"
#include "inpmodel.hpp"
#include <map>
#include <sys/mman.h>
#include <memory>
#include <errno.h>

enum { OPEN, READ, WRITE, SEEK, CLOSE };
enum { F_ERR = 0, F_EOF_OR_HALF = 1, F_SHORT = 2, NMODES = 3 };
struct Fault { int64_t at = -1; int mode = 0; bool permanent = false; };
struct Stream { std::string name; std::shared_ptr<Bytes> data; size_t pos; bool rd, wr, app, broken; char *buf; };
static struct Sim {
    std::map<std::string, std::shared_ptr<Bytes>> files;
    std::map<FILE *, Stream *> open;
    int bufmode = 0;
    int64_t ops = 0;                  // operations below stdio
    int64_t calls = 0;                // stdio calls
    Fault f[2];
    int64_t call_fault[2] = {-1, -1};
    bool visible = false;             // some stdio call reported failure
    bool all = false;                 // every name is simulated
    std::string kinds;                // kind of each op, for messages
    std::function<void()> on_change;  // called before and after each change of a file
    int64_t half = -1;
    std::string closing;              // file being closed
    std::string fault_site;           // where the last fault happened
} S;

static int fault_now(int kind)        // -1: none, else mode
{
    int64_t i = S.ops++;
    if (S.kinds.size() < 400) S.kinds += "orwsc"[kind];
    for (auto &f : S.f) if (f.at == i) { S.fault_site = S.closing; return f.mode; }
    return -1;
}
static ssize_t ck_read(void *c, char *b, size_t n)
{
    Stream *s = (Stream *)c;
    int m = fault_now(READ);
    if (s->broken) { errno = EIO; return -1; }
    if (m == F_ERR) { s->broken = S.f[0].permanent; errno = EIO; return -1; }
    if (m == F_EOF_OR_HALF) return 0;
    if (s->pos > s->data->size()) return 0;
    size_t k = std::min(n, s->data->size() - s->pos);
    if (m == F_SHORT && k > 1) k = 1;
    memcpy(b, s->data->data() + s->pos, k);
    s->pos += k;
    return k;
}
static void put_at(Stream *s, const char *b, size_t n)
{
    if (s->app) s->pos = s->data->size();
    if (s->pos + n > s->data->size()) s->data->resize(s->pos + n);
    memcpy(s->data->data() + s->pos, b, n);
    s->pos += n;
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    Stream *s = (Stream *)c;
    int m = fault_now(WRITE);
    if (s->broken) { errno = ENOSPC; return 0; }
    if (m == F_ERR) { s->broken = S.f[0].permanent; errno = ENOSPC; return 0; }
    if (m == F_EOF_OR_HALF) { put_at(s, b, n / 2); s->broken = true; return n / 2; }
    if (m == F_SHORT && n > 1) n = 1;
    if (S.on_change && n) {
        S.on_change();
        Bytes keep = *s->data;
        size_t p = s->pos;
        put_at(s, b, n / 2);
        S.on_change();
        *s->data = keep;
        s->pos = p;
    }
    put_at(s, b, n);
    if (S.on_change && n) S.on_change();
    return n;
}
static int ck_seek(void *c, off64_t *o, int w)
{
    Stream *s = (Stream *)c;
    int m = fault_now(SEEK);
    if (s->broken || m == F_ERR || m == F_EOF_OR_HALF) { errno = EIO; return -1; }
    int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)s->pos : (int64_t)s->data->size();
    if (base + *o < 0) { errno = EINVAL; return -1; }
    s->pos = base + *o;
    *o = s->pos;
    return 0;
}
static int ck_close(void *c)
{
    (void)c;
    int m = fault_now(CLOSE);
    if (m == F_ERR || m == F_EOF_OR_HALF) { errno = EIO; return -1; }
    return 0;
}
#define CALLFAULT(bad) do { int64_t _i = S.calls++; if (_i == S.call_fault[0] || _i == S.call_fault[1]) { S.visible = true; errno = EIO; bad; } } while (0)
static const int BUFS[] = {-1, 0, 1, 16, 200};
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *n, const char *m)
{
    if (!S.all && strncmp(n, "sim:", 4)) return __real_fopen(n, m);
    CALLFAULT(return NULL);
    int fm = fault_now(OPEN);
    bool plus = strchr(m, '+') != NULL;
    if (fm == F_ERR || fm == F_EOF_OR_HALF || (m[0] == 'r' && !S.files.count(n))) { S.visible = true; errno = ENOENT; return NULL; }
    if (!S.files.count(n)) S.files[n] = std::make_shared<Bytes>();
    if (m[0] == 'w') { S.files[n]->clear(); if (S.on_change) S.on_change(); }
    Stream *s = new Stream{n, S.files[n], 0, m[0] == 'r' || plus, m[0] != 'r' || plus, m[0] == 'a', false, NULL};
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(s, m, io);
    int b = BUFS[S.bufmode];
    if (b == 0) setvbuf(f, NULL, _IONBF, 0);
    if (b > 0) { s->buf = (char *)malloc(b); setvbuf(f, s->buf, _IOFBF, b); }
    S.open[f] = s;
    return f;
}
#define WRAP(ret, name, params, args, sim, bad, isbad)                  \
    extern "C" ret __real_##name params;                                \
    extern "C" ret __wrap_##name params                                 \
    {                                                                   \
        if (!S.open.count(sim)) return __real_##name args;              \
        CALLFAULT(return bad);                                          \
        ret r = __real_##name args;                                     \
        if (isbad) S.visible = true;                                    \
        return r;                                                       \
    }
WRAP(size_t, fread, (void *p, size_t a, size_t b, FILE *f), (p, a, b, f), f, 0, r != b)
WRAP(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f), f, 0, r != b)
WRAP(int, fseek, (FILE *f, long o, int w), (f, o, w), f, -1, r != 0)
WRAP(long, ftell, (FILE *f), (f), f, -1, r < 0)
WRAP(int, fflush, (FILE *f), (f), f, EOF, r != 0)
extern "C" int __real_fclose(FILE *);
extern "C" int __wrap_fclose(FILE *f)
{
    auto it = S.open.find(f);
    if (it == S.open.end()) return __real_fclose(f);
    Stream *s = it->second;
    S.open.erase(it);
    bool fail = false;
    int64_t i = S.calls++;
    if (i == S.call_fault[0] || i == S.call_fault[1]) fail = true;   // closed, but an error is reported
    S.closing = "close " + s->name;
    int r = __real_fclose(f);
    S.closing.clear();
    if (fail) r = EOF;
    if (r) S.visible = true;
    free(s->buf);
    delete s;
    return r;
}

static int f_step;
static int f_step_set(void *, int s)
{
    if (S.on_change) S.on_change();
    f_step = s;
    if (S.on_change) S.on_change();
    return 0;
}
static int f_step_get(void *, int *s) { *s = f_step; return 0; }

