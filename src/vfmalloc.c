/* The allocations of an extension module: a ledger, and one of them (or all from one on) fails. */
#include <stdlib.h>
#undef malloc
#undef calloc
#undef realloc
#undef free
long vf_live, vf_calls, vf_fail_at, vf_fail_all;

static int fails(void)
{
    vf_calls++;
    return vf_fail_at && (vf_calls == vf_fail_at || (vf_fail_all && vf_calls > vf_fail_at));
}
void *vf_malloc(size_t n)
{
    void *p = fails() ? NULL : malloc(n);
    vf_live += p != NULL;
    return p;
}
void *vf_calloc(size_t n, size_t k)
{
    void *p = fails() ? NULL : calloc(n, k);
    vf_live += p != NULL;
    return p;
}
void *vf_realloc(void *q, size_t n)
{
    void *p = fails() ? NULL : realloc(q, n);
    vf_live += q == NULL && p != NULL;
    return p;
}
void vf_free(void *p)
{
    vf_live -= p != NULL;
    free(p);
}
