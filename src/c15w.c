/* C15 worker: built once per configuration; runs every entry of a corpus and writes records. */
#include <stdlib.h>
#include <unistd.h>
#include "detools.h"

struct rec { int32_t res; uint32_t nout; uint64_t out; uint64_t trace; uint32_t muts; uint32_t api; };
static uint8_t *from; static uint32_t nfrom; static uint8_t *patch; static uint32_t npatch; static uint32_t ppos;
static uint8_t out[70000]; static uint32_t nout; static int64_t fpos;
static uint8_t mem[70000];
static uint64_t trace; static uint32_t muts; static int step;
static uint8_t state[8192]; static uint32_t nstate, rstate;

static uint64_t fnv(const void *p, size_t n, uint64_t h)
{
    const uint8_t *b = p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
#define H0 1469598103934665603ull
static void tr(char k, uint64_t a, uint64_t b, const void *p, size_t n)
{
    uint64_t v[3] = {(uint64_t)k, a, b};
    trace = fnv(v, sizeof v, trace);
    if (n) trace = fnv(p, n, trace);
}
static int from_read(void *a, uint8_t *b, size_t n)
{
    (void)a;
    if (fpos < 0 || fpos + n > nfrom) return -50;
    memcpy(b, from + fpos, n); fpos += n; tr('r', fpos, n, 0, 0);
    return 0;
}
static int from_seek(void *a, int o) { (void)a; fpos += o; tr('s', o, 0, 0, 0); return 0; }
static int to_write(void *a, const uint8_t *b, size_t n)
{
    (void)a;
    if (nout + n > sizeof out) return -51;
    memcpy(out + nout, b, n); nout += n; muts++;
    return 0;
}
static int patch_read(void *a, uint8_t *b, size_t n)
{
    (void)a;
    if (ppos + n > npatch) return -52;
    memcpy(b, patch + ppos, n); ppos += n;
    return 0;
}
static int mem_read(void *a, void *d, uintptr_t s, size_t n)
{
    (void)a;
    if (s > nfrom || n > nfrom - s) return -53;
    memcpy(d, mem + s, n); tr('R', s, n, 0, 0);
    return 0;
}
static int mem_write(void *a, uintptr_t d, void *s, size_t n)
{
    (void)a;
    muts++;
    if (d > nfrom || n > nfrom - d) return -54;
    memcpy(mem + d, s, n); tr('W', d, n, s, n);
    return 0;
}
static int mem_erase(void *a, uintptr_t d, size_t n)
{
    (void)a;
    muts++;
    if (d > nfrom || n > nfrom - d) return -55;
    memset(mem + d, 0xff, n); tr('E', d, n, 0, 0);
    return 0;
}
static int step_set(void *a, int s) { (void)a; muts++; step = s; tr('S', s, 0, 0, 0); return 0; }
static int step_get(void *a, int *s) { (void)a; *s = step; return 0; }
static int state_write(void *a, const void *b, size_t n)
{
    (void)a;
    if (nstate + n > sizeof state) return -56;
    memcpy(state + nstate, b, n); nstate += n;
    return 0;
}
static int state_read(void *a, void *b, size_t n)
{
    (void)a;
    if (rstate + n > nstate) return -57;
    memcpy(b, state + rstate, n); rstate += n;
    return 0;
}
static FILE *res;
static void reset(void)
{
    fpos = 0; ppos = nout = muts = 0; trace = H0; step = 0; nstate = rstate = 0;
    memcpy(mem, from, nfrom);
}
static void emit(int api, int inp, int r)
{
    struct rec e;
    memset(&e, 0, sizeof e);
    e.res = r;
    e.nout = inp ? nfrom : nout;
    e.out = inp ? fnv(mem, r > 0 ? (uint32_t)r : 0, H0) : fnv(out, nout, H0);
    e.trace = trace;
    e.muts = muts;
    e.api = api;
    fwrite(&e, sizeof e, 1, res);
}
static uint32_t u32(FILE *f) { uint32_t v = 0; if (fread(&v, 4, 1, f) != 1) return 0xffffffff; return v; }
static void spill(const char *n, const void *p, size_t k)
{
    FILE *f = fopen(n, "wb");
    if (k) fwrite(p, k, 1, f);
    fclose(f);
}
int main(int argc, char *argv[])
{
    FILE *f = fopen(argv[1], "rb");
    uint32_t type;
    (void)argc;
    res = fopen(argv[2], "wb");
    while ((type = u32(f)) != 0xffffffff) {
        nfrom = u32(f); from = malloc(nfrom + 1); if (nfrom && fread(from, nfrom, 1, f) != 1) return 3;
        npatch = u32(f); patch = malloc(npatch + 1); if (npatch && fread(patch, npatch, 1, f) != 1) return 3;
        uint32_t files = type & 2;
        if (type & 1) {
            struct detools_apply_patch_in_place_t *o = malloc(sizeof *o);
            reset();
            emit(0, 1, detools_apply_patch_in_place_callbacks(mem_read, mem_write, mem_erase, step_set, step_get, patch_read, npatch, NULL));
            for (int k = 0; k < 2; k++) {
                uint32_t chunk = k ? 1 : npatch ? npatch : 1;
                reset();
                memset(o, 0xa5, sizeof *o);
                int r = detools_apply_patch_in_place_init(o, mem_read, mem_write, mem_erase, step_set, step_get, npatch, NULL);
                for (uint32_t p = 0; r == 0 && p < npatch; p += chunk) r = detools_apply_patch_in_place_process(o, patch + p, npatch - p < chunk ? npatch - p : chunk);
                int q = detools_apply_patch_in_place_finalize(o);
                emit(1 + k, 1, r ? r : q);
            }
            free(o);
#if DETOOLS_CONFIG_FILE_IO == 1
            if (files) {
                reset();
                char a[512], b[512];
                snprintf(a, sizeof a, "%s.mem", argv[2]); snprintf(b, sizeof b, "%s.patch", argv[2]);
                spill(a, from, nfrom); spill(b, patch, npatch);
                int r = detools_apply_patch_in_place_filenames(a, b, NULL, NULL);
                FILE *g = fopen(a, "rb"); if (g) { if (fread(mem, nfrom, 1, g) != 1) {} fclose(g); }
                emit(9, 1, r);
                unlink(a); unlink(b);
            }
#endif
        } else {
            struct detools_apply_patch_t *o = malloc(sizeof *o);
            reset();
            emit(0, 0, detools_apply_patch_callbacks(from_read, from_seek, patch_read, npatch, to_write, NULL));
            for (int k = 0; k < 2; k++) {
                uint32_t chunk = k ? 1 : npatch ? npatch : 1;
                reset();
                memset(o, 0xa5, sizeof *o);
                int r = detools_apply_patch_init(o, from_read, from_seek, npatch, to_write, NULL);
                for (uint32_t p = 0; r == 0 && p < npatch; p += chunk) r = detools_apply_patch_process(o, patch + p, npatch - p < chunk ? npatch - p : chunk);
                int q = detools_apply_patch_finalize(o);
                emit(1 + k, 0, r ? r : q);
            }
            /* dump after k bytes, go on in another object */
            for (uint32_t k = 0; npatch < 40 && k < npatch; k++) {
                reset();
                memset(o, 0xa5, sizeof *o);
                int r = detools_apply_patch_init(o, from_read, from_seek, npatch, to_write, NULL);
                if (r == 0 && k) r = detools_apply_patch_process(o, patch, k);
                if (r == 0) {
                    int d = detools_apply_patch_dump(o, state_write);
                    if (d) r = d;
                }
                int q = detools_apply_patch_finalize(o);
                (void)q;
                if (r == 0) {
                    memset(o, 0x5a, sizeof *o);
                    fpos = 0;
                    r = detools_apply_patch_init(o, from_read, from_seek, npatch, to_write, NULL);
                    r = detools_apply_patch_restore(o, state_read);
                    if (r == 0) {
                        uint32_t p = detools_apply_patch_get_patch_offset(o);
                        nout = detools_apply_patch_get_to_offset(o);
                        r = detools_apply_patch_process(o, patch + p, npatch - p);
                    }
                    q = detools_apply_patch_finalize(o);
                    if (r == 0) r = q;
                }
                emit(16 + k, 0, r);
            }
            free(o);
#if DETOOLS_CONFIG_FILE_IO == 1
            if (files) {
                reset();
                char a[512], b[512], c[512];
                snprintf(a, sizeof a, "%s.from", argv[2]); snprintf(b, sizeof b, "%s.patch", argv[2]); snprintf(c, sizeof c, "%s.to", argv[2]);
                spill(a, from, nfrom); spill(b, patch, npatch);
                int r = detools_apply_patch_filenames(a, b, c);
                FILE *g = fopen(c, "rb"); if (g) { nout = fread(out, 1, sizeof out, g); fclose(g); }
                emit(9, 0, r);
                unlink(a); unlink(b); unlink(c);
            }
#endif
        }
        free(from);
        free(patch);
    }
    fclose(res);
    return 0;
}
