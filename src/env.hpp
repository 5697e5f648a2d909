// Closed environments for the C library: sequential callbacks and flash memory.
#pragma once
#include "model.hpp"
#ifdef VERIF_MSAN
// The harness itself is not instrumented: shadow of arguments, results and data
// crossing the API is handled here.
#include <sanitizer/msan_interface.h>
extern "C" __thread unsigned long long __msan_param_tls[];
extern "C" __thread unsigned long long __msan_retval_tls[];
static inline void msan_arg(int i, const char *what)
{
    if (__msan_param_tls[i]) { fprintf(stderr, "MSAN: uninitialised argument: %s\n", what); _exit(99); }
}
template <class T> static inline T msan_ret(T v)
{
    if ((unsigned)__msan_retval_tls[0]) { fprintf(stderr, "MSAN: uninitialised return value\n"); _exit(99); }
    return v;
}
#define INITED(p, n) __msan_check_mem_is_initialized(p, n)
#define ARG(i, what) msan_arg(i, what)
#define GAVE(p, n) __msan_unpoison(p, n)
#define FILL(p, v, n) __msan_poison(p, n)
#define API(call) (__msan_unpoison_param(16), msan_ret(call))
#else
#define INITED(p, n)
#define ARG(i, what)
#define GAVE(p, n)
#define FILL(p, v, n) memset(p, v, n)
#define API(call) (call)
#endif
extern "C" {
#include "detools.h"
}

// ---- sequential -------------------------------------------------------------
struct SeqEnv {
    const Bytes *from = nullptr;
    const Bytes *patch = nullptr;
    int64_t pos = 0;
    size_t ppos = 0;
    Bytes out;
    size_t out_limit = SIZE_MAX;
    // fault plan: invocation number (over all callbacks) -> error value
    int64_t calls = 0, fail_at = -1, fail_at2 = -1;
    int fail_value = -1;
    bool failed = false, failed_patch = false;   // failed_patch: the failure was a patch read
    int64_t calls_after_failure = 0, writes_after_failure = 0;
    std::vector<int> *seeks = nullptr;
    bool over = false;      // wrote more than out_limit
    bool badreq = false;
    bool fault()
    {
        if (failed) calls_after_failure++;
        int64_t c = calls++;
        if (c == fail_at || c == fail_at2) { failed = true; return true; }
        return false;
    }
};
static int env_from_read(void *a, uint8_t *buf, size_t n)
{
    SeqEnv *e = (SeqEnv *)a;
    if (e->fault()) return e->fail_value;
    if (e->pos < 0 || e->pos + (int64_t)n > (int64_t)e->from->size()) { e->failed = true; return -1; }
    if (n) memcpy(buf, e->from->data() + e->pos, n);
    GAVE(buf, n);
    e->pos += n;
    return 0;
}
static int env_from_seek(void *a, int off)
{
    ARG(1, "seek offset");
    SeqEnv *e = (SeqEnv *)a;
    if (e->seeks) e->seeks->push_back(off);
    if (e->fault()) return e->fail_value;
    if (e->pos + off < 0) { e->failed = true; return -1; }
    e->pos += off;
    return 0;
}
static int env_to_write(void *a, const uint8_t *buf, size_t n)
{
    SeqEnv *e = (SeqEnv *)a;
    INITED(buf, n);
    if (e->failed) e->writes_after_failure++;
    if (e->fault()) return e->fail_value;
    if (e->out.size() + n > e->out_limit) { e->over = true; e->failed = true; return -1; }
    e->out.insert(e->out.end(), buf, buf + n);
    return 0;
}
static int env_patch_read(void *a, uint8_t *buf, size_t n)
{
    SeqEnv *e = (SeqEnv *)a;
    if (e->fault()) { e->failed_patch = true; return e->fail_value; }
    if (e->ppos + n > e->patch->size()) { e->badreq = true; e->failed = true; return -1; }
    memcpy(buf, e->patch->data() + e->ppos, n);
    GAVE(buf, n);
    e->ppos += n;
    return 0;
}

// Result of a session.
struct Res { int res; int process_res; };

static inline Res seq_callbacks(SeqEnv &e)
{
    int r = API(detools_apply_patch_callbacks(env_from_read, env_from_seek, env_patch_read,
                                          e.patch->size(), env_to_write, &e));
    return {r, 0};
}
// chunks: sizes; the rest (if any) goes in one last chunk.  Each chunk is handed
// over in a heap buffer of exactly its size so that over-reads are visible.
template <class F>
static inline void for_chunks(const Bytes &patch, const std::vector<size_t> &chunks, F f)
{
    size_t p = 0;
    for (size_t i = 0; i <= chunks.size(); i++) {
        size_t n = i < chunks.size() ? chunks[i] : patch.size() - p;
        if (i == chunks.size() && n == 0) break;
        if (n > patch.size() - p) n = patch.size() - p;
        uint8_t *b = (uint8_t *)malloc(n ? n : 1);
        if (n) memcpy(b, patch.data() + p, n);
        GAVE(b, n);
        bool go = f(b, n);
        free(b);
        if (!go) break;
        p += n;
    }
}
// more: how many bytes fewer are given than the patch size says
static inline Res seq_process(SeqEnv &e, const std::vector<size_t> &chunks, int fill = 0xa5, size_t more = 0)
{
    struct detools_apply_patch_t *s = (struct detools_apply_patch_t *)malloc(sizeof *s);
    FILL(s, fill, sizeof *s);
    int r = API(detools_apply_patch_init(s, env_from_read, env_from_seek, e.patch->size() + more, env_to_write, &e));
    if (r == 0) {
        for_chunks(*e.patch, chunks, [&](const uint8_t *b, size_t n) {
            r = API(detools_apply_patch_process(s, b, n));
            return r == 0;
        });
        int f = API(detools_apply_patch_finalize(s));
        if (r == 0) r = f;
    }
    free(s);
    return {r, 0};
}
static inline std::vector<size_t> uniform(size_t total, size_t k)
{
    std::vector<size_t> c;
    for (size_t p = 0; p + k < total; p += k) c.push_back(k);
    return c;
}

// ---- in-place ------------------------------------------------------------------
struct Op { char kind; uint64_t addr; uint64_t size; };   // r w e S(step set) G(step get) p
struct Crash { };
struct InpEnv {
    Bytes mem;              // exactly the memory of the header (or what the harness wants)
    Bytes erased;           // per byte: 1 when erased during this update and not written since
    int step = 0;
    bool use_get = true, use_set = true;
    bool strict = true;     // NOR: writes clear bits only
    int seg = 0;            // for erase rule checks (0: off)
    const Bytes *patch = nullptr;
    size_t ppos = 0;
    int64_t calls = 0, fail_at = -1, fail_at2 = -1;
    int fail_value = -1;
    bool failed = false, failed_patch = false;
    int64_t muts_after_failure = 0;
    std::string oob, rule;  // first out-of-range access, first rule violation
    std::vector<Op> *trace = nullptr;
    int64_t muts = 0;
    int badstep = 0;
    // crash plan: at mutation number crash_at, stop; variant says how much was done
    int64_t crash_at = -1;
    int variant = 0;
    bool crashed = false;
    bool fault()
    {
        int64_t c = calls++;
        if (c == fail_at || c == fail_at2) { failed = true; return true; }
        return false;
    }
    bool range(const char *what, uint64_t a, uint64_t n)
    {
        if (a <= mem.size() && n <= mem.size() - a) return true;
        if (oob.empty()) oob = strf("%s at %llu size %llu outside memory of %zu", what,
                                    (unsigned long long)a, (unsigned long long)n, mem.size());
        failed = true;
        return false;
    }
};
static int env_mem_read(void *a, void *dst, uintptr_t src, size_t n)
{
    ARG(2, "read address");
    ARG(3, "read size");
    InpEnv *e = (InpEnv *)a;
    if (e->crashed) return -1;
    if (e->trace) e->trace->push_back({'r', src, n});
    if (e->fault()) return e->fail_value;
    if (!e->range("read", src, n)) return -1;
    if (n) memcpy(dst, e->mem.data() + src, n);
    GAVE(dst, n);
    return 0;
}
static int env_mem_write(void *a, uintptr_t dst, void *src, size_t n)
{
    ARG(1, "write address");
    ARG(3, "write size");
    InpEnv *e = (InpEnv *)a;
    if (e->crashed) return -1;
    INITED(src, n);
    if (e->trace) e->trace->push_back({'w', dst, n});
    if (e->failed) e->muts_after_failure++;
    if (e->fault()) return e->fail_value;
    if (!e->range("write", dst, n)) return -1;
    size_t m = n;
    if (e->muts == e->crash_at) {
        e->crashed = true;
        m = e->variant == 0 ? 0 : e->variant == 1 || e->variant == 4 ? n / 2 : e->variant == 2 ? n - 1 : n;
    }
    e->muts++;
    for (size_t i = 0; i < m; i++) {
        if (!e->erased[dst + i] && e->rule.empty())
            e->rule = strf("write at %llu size %zu: byte %llu not erased since its last write in this update",
                           (unsigned long long)dst, n, (unsigned long long)(dst + i));
        e->erased[dst + i] = 0;
        uint8_t v = ((uint8_t *)src)[i];
        e->mem[dst + i] = e->strict ? (e->mem[dst + i] & v) : v;
    }
    // variant 4: the byte being written when the power went has an undefined value
    if (e->crashed && e->variant == 4) { e->mem[dst + m] = 0x5a; e->erased[dst + m] = 0; }
    return e->crashed ? -1 : 0;
}
static int env_mem_erase(void *a, uintptr_t addr, size_t n)
{
    ARG(1, "erase address");
    ARG(2, "erase size");
    InpEnv *e = (InpEnv *)a;
    if (e->crashed) return -1;
    if (e->trace) e->trace->push_back({'e', addr, n});
    if (e->failed) e->muts_after_failure++;
    if (e->fault()) return e->fail_value;
    if (!e->range("erase", addr, n)) return -1;
    if (e->seg > 0 && e->rule.empty() && (addr % e->seg != 0 || n > (size_t)e->seg))
        e->rule = strf("erase at %llu size %zu does not start at a segment boundary or spans segments of %d",
                       (unsigned long long)addr, n, e->seg);
    size_t m = n, from = 0;
    if (e->muts == e->crash_at) {
        e->crashed = true;
        // torn erase: nothing, first half, second half, all
        m = e->variant == 0 ? 0 : e->variant == 1 ? n / 2 : n;
        from = e->variant == 2 ? n / 2 : 0;
        // variant 4: an interrupted erase leaves undefined contents
        if (e->variant == 4) { m = 0; for (size_t i = 0; i < n; i++) e->mem[addr + i] = 0x5a; }
        for (size_t i = 0; i < n; i++) e->erased[addr + i] = 0;
    }
    e->muts++;
    // A flash erases whole segments: what lies between the to-size and the end
    // of the segment goes too (strict) unless the environment is a plain memory.
    size_t end = m;
    if (e->strict && e->seg > 0 && addr % e->seg == 0 && m == n && n > 0)
        end = std::min<size_t>((n + e->seg - 1) / e->seg * e->seg, e->mem.size() - addr);
    for (size_t i = from; i < end; i++) {
        e->mem[addr + i] = e->strict ? 0xff : e->mem[addr + i];
        if (i < m && (!e->crashed || e->variant == 3)) e->erased[addr + i] = 1;   // asked for, not just erased with the rest
    }
    return e->crashed ? -1 : 0;
}
static int env_step_set(void *a, int step)
{
    ARG(1, "step");
    InpEnv *e = (InpEnv *)a;
    if (e->crashed) return -1;
    if (e->trace) e->trace->push_back({'S', (uint64_t)step, 0});
    if (e->failed) e->muts_after_failure++;
    if (e->fault()) return e->fail_value;
    if (step < 0) e->badstep++;
    if (e->muts == e->crash_at) {
        e->crashed = true;
        if (e->variant == 3) e->step = step;
        e->muts++;
        return -1;
    }
    e->muts++;
    e->step = step;
    return 0;
}
static int env_step_get(void *a, int *step)
{
    InpEnv *e = (InpEnv *)a;
    if (e->crashed) return -1;
    if (e->trace) e->trace->push_back({'G', 0, 0});
    if (e->fault()) return e->fail_value;
    *step = e->step;
    GAVE(step, sizeof *step);
    return 0;
}
static int env_inp_patch_read(void *a, uint8_t *buf, size_t n)
{
    InpEnv *e = (InpEnv *)a;
    if (e->crashed) return -1;
    if (e->trace) e->trace->push_back({'p', e->ppos, n});
    if (e->fault()) { e->failed_patch = true; return e->fail_value; }
    if (e->ppos + n > e->patch->size()) { e->failed = true; return -1; }
    memcpy(buf, e->patch->data() + e->ppos, n);
    GAVE(buf, n);
    e->ppos += n;
    return 0;
}
static inline int inp_callbacks(InpEnv &e)
{
    return API(detools_apply_patch_in_place_callbacks(
        env_mem_read, env_mem_write, env_mem_erase,
        e.use_set ? env_step_set : NULL, e.use_get ? env_step_get : NULL,
        env_inp_patch_read, e.patch->size(), &e));
}
static inline int inp_process(InpEnv &e, const std::vector<size_t> &chunks, int fill = 0xa5, size_t more = 0)
{
    struct detools_apply_patch_in_place_t *s = (struct detools_apply_patch_in_place_t *)malloc(sizeof *s);
    FILL(s, fill, sizeof *s);
    int r = API(detools_apply_patch_in_place_init(s, env_mem_read, env_mem_write, env_mem_erase,
                                              e.use_set ? env_step_set : NULL,
                                              e.use_get ? env_step_get : NULL,
                                              e.patch->size() + more, &e));
    if (r == 0) {
        for_chunks(*e.patch, chunks, [&](const uint8_t *b, size_t n) {
            r = API(detools_apply_patch_in_place_process(s, b, n));
            return r == 0;
        });
        int f = API(detools_apply_patch_in_place_finalize(s));
        if (r == 0) r = f;
    }
    free(s);
    return r;
}
