/* The C library applied to memory, for the Python harnesses. */
#include <stdlib.h>
#include <string.h>
#include "detools.h"

struct env { const uint8_t *from; size_t from_size; long pos; uint8_t *out; size_t cap, n; };

static int f_read(void *a, uint8_t *b, size_t n)
{
    struct env *e = a;
    if (e->pos < 0 || (size_t)e->pos > e->from_size || n > e->from_size - e->pos) return -1;
    memcpy(b, e->from + e->pos, n);
    e->pos += n;
    return 0;
}
static int f_seek(void *a, int off)
{
    struct env *e = a;
    if (e->pos + off < 0) return -1;
    e->pos += off;
    return 0;
}
static int f_write(void *a, const uint8_t *b, size_t n)
{
    struct env *e = a;
    if (n > e->cap - e->n) return -1;
    memcpy(e->out + e->n, b, n);
    e->n += n;
    return 0;
}
int vf_apply(const uint8_t *from, size_t from_size, const uint8_t *patch, size_t patch_size,
             uint8_t *out, size_t cap, size_t *n, size_t chunk)
{
    struct env e = {from, from_size, 0, out, cap, 0};
    struct detools_apply_patch_t *p = malloc(sizeof(*p));
    size_t at = 0;
    int res = detools_apply_patch_init(p, f_read, f_seek, patch_size, f_write, &e);
    if (res == 0) {
        while (at < patch_size && res >= 0) {
            size_t k = patch_size - at;
            if (chunk && k > chunk) k = chunk;
            res = detools_apply_patch_process(p, patch + at, k);
            at += k;
        }
        int r = detools_apply_patch_finalize(p);
        if (res >= 0) res = r;
    }
    free(p);
    *n = e.n;
    return res;
}
struct mem { uint8_t *m; size_t n; uint8_t *erased; int bad; };
static int m_read(void *a, void *d, uintptr_t s, size_t n)
{
    struct mem *m = a;
    if (s > m->n || n > m->n - s) { m->bad = 1; return -1; }
    memcpy(d, m->m + s, n);
    return 0;
}
static int m_write(void *a, uintptr_t d, void *s, size_t n)
{
    struct mem *m = a;
    if (d > m->n || n > m->n - d) { m->bad = 1; return -1; }
    memcpy(m->m + d, s, n);
    return 0;
}
static int m_erase(void *a, uintptr_t d, size_t n)
{
    struct mem *m = a;
    if (d > m->n || n > m->n - d) { m->bad = 1; return -1; }
    memset(m->m + d, 0xff, n);
    return 0;
}
static int step;
static int s_set(void *a, int s) { step = s; return 0; }
static int s_get(void *a, int *s) { *s = step; return 0; }
struct pr { const uint8_t *p; size_t n, at; };
static struct pr PR;
static int p_read(void *a, uint8_t *b, size_t n)
{
    if (n > PR.n - PR.at) return -1;
    memcpy(b, PR.p + PR.at, n);
    PR.at += n;
    return 0;
}
/* Below -1000: the memory was accessed outside its bounds. */
int vf_in_place(uint8_t *mem, size_t n, const uint8_t *patch, size_t patch_size)
{
    struct mem m = {mem, n, 0, 0};
    step = 0;
    PR.p = patch; PR.n = patch_size; PR.at = 0;
    int r = detools_apply_patch_in_place_callbacks(m_read, m_write, m_erase, s_set, s_get, p_read, patch_size, &m);
    return m.bad ? -1001 : r;
}

/* 0 if sa is the suffix array of data with the empty suffix first, and the 16 bytes around it are untouched. */
int vf_check_sa(const uint8_t *data, int n, const uint8_t *raw, int *rank)
{
    int i;
    const int32_t *sa = (const int32_t *)(raw + 16);
    for (i = 0; i < 16; i++)
        if (raw[i] != 0xa5 || raw[16 + 4 * (n + 1) + i] != 0xa5) return 5;
    if (sa[0] != n) return 1;
    for (i = 0; i <= n; i++) rank[i] = -1;
    for (i = 0; i <= n; i++) {
        if (sa[i] < 0 || sa[i] > n) return 2;
        if (rank[sa[i]] != -1) return 3;
        rank[sa[i]] = i;
    }
    for (i = 1; i < n; i++) {
        int a = sa[i], b = sa[i + 1];
        if (data[a] > data[b] || (data[a] == data[b] && rank[a + 1] > rank[b + 1])) return 4;
    }
    return 0;
}
