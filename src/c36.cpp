// C36: an update streams.  Data is written as soon as the patch bytes for it are there, the
// from-data is read where and when it is needed, and memory does not grow with the patch.
// Every heap block is on a ledger with its size; the stack below the calls is painted.
#include "env.hpp"
#include "inpmodel.hpp"
#include "geos.hpp"
#include <malloc.h>

// ---- heap ledger -------------------------------------------------------------------
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
}
static bool TRACK;
static struct { void *p; size_t n; } LED[4096];
static int NLED;
static size_t LIVE, PEAK;
static void add(void *p, size_t n)
{
    if (!p || NLED == 4096) return;
    LED[NLED].p = p;
    LED[NLED++].n = n;
    LIVE += n;
    if (LIVE > PEAK) PEAK = LIVE;
}
static void del(void *p)
{
    for (int i = NLED - 1; i >= 0; i--)
        if (LED[i].p == p) { LIVE -= LED[i].n; LED[i] = LED[--NLED]; return; }
}
extern "C" void *malloc(size_t n) { void *p = __libc_malloc(n); if (TRACK) add(p, n); return p; }
extern "C" void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (TRACK) add(p, a * b); return p; }
extern "C" void *realloc(void *q, size_t n)
{
    if (TRACK && q) del(q);
    void *p = __libc_realloc(q, n);
    if (TRACK) add(p, n);
    return p;
}
extern "C" void free(void *p) { if (TRACK && p) del(p); __libc_free(p); }
static void ledger_reset() { NLED = 0; LIVE = PEAK = 0; }
struct Off { bool t; Off() : t(TRACK) { TRACK = false; } ~Off() { TRACK = t; } };

// ---- stack ---------------------------------------------------------------------------
// The library runs on a stack of its own that is painted before the session.
#include <ucontext.h>
// liblzma gives data when all that was asked for (up to 128 bytes) is there, and holds back part of a match.
enum { LZMA_LAG = 128 + 273 };
enum { STACK = 256 * 1024, STACK_LIMIT = 16 * 1024 };
static uint8_t *STK;
static ucontext_t MAIN, LIB;
static std::function<void()> *BODY;
static void trampoline() { (*BODY)(); }
static void on_stack(std::function<void()> f)
{
    if (!STK) STK = (uint8_t *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(STK + STACK - 4 * STACK_LIMIT, 0x5e, 4 * STACK_LIMIT);
    BODY = &f;
    getcontext(&LIB);
    LIB.uc_stack.ss_sp = STK;
    LIB.uc_stack.ss_size = STACK;
    LIB.uc_link = &MAIN;
    makecontext(&LIB, trampoline, 0);
    swapcontext(&MAIN, &LIB);
}
static size_t stack_used()
{
    uint8_t *lo = STK + STACK - 4 * STACK_LIMIT;
    size_t i = 0;
    while (i < 4 * STACK_LIMIT && lo[i] == 0x5e) i++;
    return 4 * STACK_LIMIT - i;
}

// ---- what a patch determines ---------------------------------------------------------
struct Stream {
    std::vector<uint32_t> tos;      // payload bytes -> to-data bytes they determine
    std::vector<int64_t> src;       // to-data byte -> from position, or -1 (extra data)
    std::vector<uint32_t> plain;    // patch bytes -> payload bytes they determine
};
// The records of a payload; in-place: starts of the segments' reads, and sizes.
static void walk(Stream &s, const Bytes &d, const std::vector<std::pair<int64_t, int64_t>> &parts)
{
    size_t i = 0;
    bool dummy = false;
    s.tos.assign(1, 0);
    auto upto = [&]() { while (s.tos.size() <= i) s.tos.push_back(s.src.size()); };
    for (auto &p : parts) {
        int64_t v, pos = p.first, done = 0;
        if (rd_size(d, i, v, dummy)) abort();
        upto();
        do {
            if (rd_size(d, i, v, dummy)) abort();
            upto();
            for (int64_t k = 0; k < v; k++) { s.src.push_back(pos++); i++; upto(); }
            done += v;
            if (rd_size(d, i, v, dummy)) abort();
            upto();
            for (int64_t k = 0; k < v; k++) { s.src.push_back(-1); i++; upto(); }
            done += v;
            if (rd_size(d, i, v, dummy)) abort();
            upto();
            pos += v;
        } while (done < p.second);
    }
}
// Payload bytes after each number of patch bytes, in one pass.
static void prefixes(Stream &s, int comp, const Bytes &patch, size_t header)
{
    size_t n = patch.size(), i = header;
    s.plain.assign(n + 1, 0);
    uint32_t d = 0;
    if (comp == C_NONE) {
        for (; i <= n; i++) s.plain[i] = i - header;
    } else if (comp == C_CRLE) {
        while (i < n) {
            int kind = patch[i++];
            s.plain[i] = d;
            uint64_t v = 0;
            int k = 0;
            uint8_t b;
            do { b = patch[i++]; v |= (uint64_t)(b & 0x7f) << k; k += 7; s.plain[i] = d; } while (b & 0x80);
            if (kind == 0) while (v-- > 0) s.plain[++i] = ++d;
            else { d += v; s.plain[++i] = d; }
        }
    } else if (comp == C_HS && n > header) {
        int w = (patch[i] >> 4) + 4, l = (patch[i] & 15) + 3;
        size_t bit = (i + 1) * 8, nb = n * 8;
        auto get = [&](size_t at, int k) { uint32_t v = 0; for (int j = 0; j < k; j++, at++) v = v << 1 | (patch[at >> 3] >> (7 - (at & 7)) & 1); return v; };
        while (bit < nb) {
            size_t e = bit + (get(bit, 1) ? 9 : 1 + w + l);
            if (e > nb) break;
            d += get(bit, 1) ? 1 : get(bit + 1 + w, l) + 1;
            bit = e;
            s.plain[(e + 7) / 8] = d;
        }
        for (i = header + 1; i <= n; i++) s.plain[i] = std::max(s.plain[i], s.plain[i - 1]);
    } else if (comp == C_LZMA && n > header) {
        lzma_stream z = LZMA_STREAM_INIT;
        if (lzma_alone_decoder(&z, UINT64_MAX) != LZMA_OK) abort();
        std::vector<uint8_t> out(1 << 20);
        for (; i < n; i++) {
            z.next_in = &patch[i];
            z.avail_in = 1;
            z.next_out = out.data();
            z.avail_out = out.size();
            lzma_ret r = lzma_code(&z, LZMA_RUN);
            if (r != LZMA_OK && r != LZMA_STREAM_END) abort();
            s.plain[i + 1] = z.total_out;
        }
        lzma_end(&z);
    }
}

// ---- sessions ------------------------------------------------------------------------
struct Item { std::string name; bool inp; Geo g; Bytes from, patch, to; int comp; size_t header; Bytes payload; };
struct Mon {
    const Item *it;
    const Stream *st;
    Bytes mem;
    int64_t pos = 0;
    size_t ppos = 0;
    int64_t shift_reads = 0, shift_writes = 0, shift_left = 0;
    int step = 0;
    size_t written = 0, nread = 0;     // to-data bytes written; of those needing from-data, read
    std::vector<uint32_t> diffs;       // to-data bytes -> diff bytes among them
    std::vector<int64_t> want;         // positions to read, in order
    std::string err;
    bool in_process = false;
    void bad(const std::string &m) { if (err.empty()) err = m; }
    void rd(int64_t at, size_t n)
    {
        for (size_t i = 0; i < n; i++) {
            if (nread >= want.size()) { bad(strf("from-data byte %lld read, no more is needed", (long long)at)); return; }
            if (want[nread] != at + (int64_t)i) { bad(strf("from-data byte %lld read when byte %lld is needed", (long long)at + (long long)i, (long long)want[nread])); return; }
            nread++;
        }
    }
    void wr(const uint8_t *p, size_t n)
    {
        if (written + n > it->to.size()) { bad("more than the to-data written"); return; }
        if (memcmp(p, it->to.data() + written, n)) bad(strf("wrong data written after %zu bytes", written));
        written += n;
    }
};
static int m_from_read(void *a, uint8_t *b, size_t n)
{
    Off o;
    Mon *m = (Mon *)a;
    if (m->pos < 0 || m->pos + (int64_t)n > (int64_t)m->it->from.size()) { m->bad("from-data read outside the data"); return -1; }
    m->rd(m->pos, n);
    memcpy(b, m->it->from.data() + m->pos, n);
    m->pos += n;
    return 0;
}
static int m_from_seek(void *a, int x) { Mon *m = (Mon *)a; m->pos += x; return m->pos < 0 ? -1 : 0; }
static int m_to_write(void *a, const uint8_t *b, size_t n) { Off o; ((Mon *)a)->wr(b, n); return 0; }
static int m_patch_read(void *a, uint8_t *b, size_t n)
{
    Mon *m = (Mon *)a;
    if (n > m->it->patch.size() - m->ppos) { m->bad("patch read beyond its end"); return -1; }
    memcpy(b, m->it->patch.data() + m->ppos, n);
    m->ppos += n;
    return 0;
}
static int m_mem_read(void *a, void *d, uintptr_t s, size_t n)
{
    Off o;
    Mon *m = (Mon *)a;
    if (s > m->mem.size() || n > m->mem.size() - s) { m->bad("memory read outside the memory"); return -1; }
    if (m->shift_left > 0) m->shift_reads += n;
    else m->rd(s, n);
    memcpy(d, m->mem.data() + s, n);
    return 0;
}
static int m_mem_write(void *a, uintptr_t d, void *s, size_t n)
{
    Off o;
    Mon *m = (Mon *)a;
    if (d > m->mem.size() || n > m->mem.size() - d) { m->bad("memory written outside the memory"); return -1; }
    if (m->shift_left > 0) { m->shift_writes += n; m->shift_left -= n; }
    else {
        if (d != m->written) m->bad(strf("to-data written at %zu after %zu bytes", (size_t)d, m->written));
        m->wr((uint8_t *)s, n);
    }
    memcpy(m->mem.data() + d, s, n);
    return 0;
}
static int m_mem_erase(void *, uintptr_t, size_t) { return 0; }
static int m_step_set(void *a, int s) { ((Mon *)a)->step = s; return 0; }
static int m_step_get(void *a, int *s) { *s = ((Mon *)a)->step; return 0; }

static size_t WORST_STACK;
// chunks empty: the callbacks API.
static void session(Ctx &c, const Item &it, const Stream &st, const std::vector<size_t> &chunks, bool callbacks, bool steps,
                    size_t lib_peak, const std::string &what)
{
    Mon m;
    m.it = &it;
    m.st = &st;
    m.diffs.push_back(0);
    for (int64_t s : st.src) { if (s >= 0) m.want.push_back(s); m.diffs.push_back(m.want.size()); }
    int64_t shift = 0;
    if (it.inp) {
        m.mem = it.from;
        if (it.g.to > 0 && it.g.shift > 0) shift = cdiv(std::min(it.g.from, it.g.mem - it.g.shift), it.g.seg) * it.g.seg;
        m.shift_left = shift;
    }
    size_t n = it.patch.size(), maxchunk = callbacks ? 512 : 0;
    size_t rest = n;
    for (size_t k : chunks) { maxchunk = std::max(maxchunk, k); rest -= std::min(rest, k); }
    if (!callbacks) maxchunk = std::max(maxchunk, rest);
    static union { struct detools_apply_patch_t s; struct detools_apply_patch_in_place_t p; } o;
    memset(&o, 0xa5, sizeof o);
    ledger_reset();
    int r = 0;
    std::string err;
    // Blocks handed over are of exactly the chunk's size, outside the ledger.
    Bytes data = it.patch;
    auto check = [&](size_t k, size_t before, const char *when) {
        if (!m.err.empty()) { err = m.err; return; }
        // The last byte is taken in last; with lzma the last two chunks are.
        size_t pl = st.plain[k], pm = k ? st.plain[it.comp == C_LZMA ? before : k - 1] : 0;
        if (it.comp == C_LZMA) pm = pm > LZMA_LAG ? pm - LZMA_LAG : 0;
        size_t hi = st.tos[pl], lo = st.tos[pm];
        if (m.written > hi) err = strf("%zu bytes written, the %zu patch bytes given determine %zu", m.written, k, hi);
        else if (m.written < lo) err = strf("%s: only %zu bytes written, %zu patch bytes given, those before the last determine %zu", when, m.written, k, lo);
        else if (m.nread != m.diffs[m.written]) err = strf("%zu bytes of from-data read for %zu bytes written, which need %u", m.nread, m.written, m.diffs[m.written]);
        else if (m.shift_reads != m.shift_writes || m.shift_reads > shift) err = strf("%lld bytes read to shift %lld", (long long)m.shift_reads, (long long)shift);
        // memory
        size_t live = 0, peak = 0;
        if (it.comp == C_LZMA) { live = lib_peak + 2 * maxchunk + 512; peak = live + 2 * maxchunk + 512; }
#if HEATSHRINK_DYNAMIC_ALLOC
        if (it.comp == C_HS) { live = peak = 256 + 512 + 64; if (k > it.header) live = peak = live + (1u << ((it.patch[it.header] >> 4) + 4)); }
#endif
        if (k < it.header) live = peak = 0;
        if (!err.empty()) return;
        if (LIVE > live) err = strf("%s: %zu bytes of heap held after %zu patch bytes, at most %zu expected", when, LIVE, k, live);
        else if (PEAK > peak) err = strf("%zu bytes of heap used within the first %zu patch bytes, at most %zu expected", PEAK, k, peak);
    };
    on_stack([&]() {
        TRACK = true;
        if (callbacks) {
            r = it.inp ? detools_apply_patch_in_place_callbacks(m_mem_read, m_mem_write, m_mem_erase, steps ? m_step_set : NULL, steps ? m_step_get : NULL,
                                                                m_patch_read, n, &m)
                       : detools_apply_patch_callbacks(m_from_read, m_from_seek, m_patch_read, n, m_to_write, &m);
            TRACK = false;
            return;
        }
        r = it.inp ? detools_apply_patch_in_place_init(&o.p, m_mem_read, m_mem_write, m_mem_erase, steps ? m_step_set : NULL, steps ? m_step_get : NULL, n, &m)
                   : detools_apply_patch_init(&o.s, m_from_read, m_from_seek, n, m_to_write, &m);
        TRACK = false;
        check(0, 0, "after init");
        size_t p = 0, last = 0, prev = 0;
        for (size_t i = 0; i <= chunks.size() && r == 0 && err.empty(); i++) {
            size_t k = i < chunks.size() ? std::min(chunks[i], n - p) : n - p;
            if (i == chunks.size() && k == 0) break;
            uint8_t *b = (uint8_t *)malloc(k ? k : 1);
            memcpy(b, data.data() + p, k);
            TRACK = true;
            r = it.inp ? detools_apply_patch_in_place_process(&o.p, b, k) : detools_apply_patch_process(&o.s, b, k);
            TRACK = false;
            if (k > 0) { last = prev; prev = p; }
            p += k;
            free(b);
            if (r == 0) check(p, last, "after process()");
            c.count(1);
            c.count(2);
        }
        TRACK = true;
        int q = it.inp ? detools_apply_patch_in_place_finalize(&o.p) : detools_apply_patch_finalize(&o.s);
        TRACK = false;
        if (r == 0) r = q;
    });
    size_t used = stack_used();
    if (used > WORST_STACK) WORST_STACK = used;
    c.count(0);
    c.tick();
    if (err.empty()) err = m.err;
    if (callbacks && err.empty()) {
        // judged at the end only
        size_t k = LIVE;
        LIVE = 0;
        check(n, 0, "at the end");
        LIVE = k;
    }
    if (err.empty() && r != (int)it.to.size()) err = strf("result %d for a to-data of %zu", r, it.to.size());
    if (err.empty() && m.written != it.to.size()) err = "not everything written";
    if (err.empty() && used > STACK_LIMIT) err = strf("%zu bytes of stack used, the limit is %d", used, STACK_LIMIT);
    if (!err.empty()) c.fail(what + ": " + err);
}
static size_t lib_use(const Item &it)
{
    if (it.comp != C_LZMA) return 0;
    ledger_reset();
    TRACK = true;
    lzma_stream s = LZMA_STREAM_INIT;
    if (lzma_alone_decoder(&s, UINT64_MAX) != LZMA_OK) abort();
    s.next_in = it.patch.data() + it.header;
    s.avail_in = it.patch.size() - it.header;
    uint8_t b[4096];
    lzma_ret r;
    do { s.next_out = b; s.avail_out = sizeof b; r = lzma_code(&s, LZMA_RUN); } while (r == LZMA_OK);
    lzma_end(&s);
    TRACK = false;
    return PEAK;
}
static Item seq_item(const std::string &name, const Bytes &from, const std::vector<Rec> &recs, Repr r)
{
    Item it;
    it.name = strf("%s %s/%d", name.c_str(), cname(r.comp), r.mode);
    it.inp = false;
    it.g = Geo();
    it.from = from;
    it.comp = r.comp;
    if (!recs_apply(from, recs, it.to)) abort();
    it.patch = seq_patch(recs, r);
    it.header = seq_header(r.comp, it.to.size()).size();
    it.payload = it.to.empty() ? Bytes() : recs_payload(recs);
    return it;
}
static void explore(Ctx &c, const Item &it)
{
    Stream st;
    std::vector<std::pair<int64_t, int64_t>> parts;
    if (!it.inp) { if (!it.to.empty()) parts.push_back({0, it.to.size()}); }
    else for (int64_t i = 0; i * it.g.seg < it.g.to; i++)
        parts.push_back({std::max(it.g.seg * (i + 1), it.g.shift), std::min(it.g.seg, it.g.to - i * it.g.seg)});
    walk(st, it.payload, parts);
    size_t n = it.patch.size();
    std::vector<std::vector<size_t>> plans;
    std::vector<std::string> names;
    if (n <= (c.thorough ? 15u : 12u)) {
        for (uint32_t b = 0; b < 1u << (n - 1); b++) {
            std::vector<size_t> v;
            size_t run = 1;
            for (size_t i = 0; i + 1 < n; i++) if (b >> i & 1) { v.push_back(run); run = 1; } else run++;
            plans.push_back(v);
        }
    } else {
        std::set<size_t> ks = {1, 2, 3, 5, 7, 8, 16, 31, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4096, n / 2, n - 1, n};
        if (n > 20000) for (size_t k : {1, 2, 3, 5, 7, 8, 16, 31}) ks.erase(k);
        if (c.thorough && n < 20000) for (size_t k = 1; k <= 40; k++) ks.insert(k);
        for (size_t k : ks) {
            if (k == 0 || k > n) continue;
            plans.push_back(uniform(n, k));
            std::vector<size_t> v;      // nothing, much, little
            for (size_t p = 0; p < n; p += k + 1) { v.push_back(0); v.push_back(k); v.push_back(1); }
            plans.push_back(v);
        }
        // one cut at every place (small), two cuts: a byte alone
        if (n < 1500) for (size_t k = 1; k < n; k++) { plans.push_back({k}); if (k + 1 < n) plans.push_back({k, 1}); }
    }
    prefixes(st, it.comp, it.patch, it.header);
    if (st.plain[n] != it.payload.size()) abort();
    if (st.tos.size() - 1 != it.payload.size()) abort();
    size_t lib = lib_use(it);
    for (size_t i = 0; i < plans.size(); i++) {
        std::string what = it.name + ", chunks";
        for (size_t k = 0; k < plans[i].size() && k < 16; k++) what += strf(" %zu", plans[i][k]);
        session(c, it, st, plans[i], false, it.inp && i % 2, lib, what);
    }
    session(c, it, st, {}, true, it.inp, lib, it.name + ", callbacks");
    c.count(3);
    c.distinct_add(fnv(it.patch, fnv(it.from)));
    c.sample(it.name + strf(": %zu patch bytes, %zu to-data bytes, %zu chunkings, worst stack %zu", n, it.to.size(), plans.size(), WORST_STACK));
}
static void enumerate(Ctx &c)
{
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -1}, {C_CRLE, -3}, {C_CRLE, 0}, {C_CRLE, 5}, {C_HS, 0}, {C_HS, 1}, {C_HS, 2}, {C_LZMA, 0}, {C_LZMA, 1 << 16}};
#if HEATSHRINK_DYNAMIC_ALLOC
    rs = {{C_HS, 0}, {C_HS, 1}, {C_HS, HS_MODE(4, 3)}, {C_HS, HS_MODE(10, 5)}, {C_HS, HS_MODE(15, 14)}, {C_NONE, 0}, {C_CRLE, -3}};
#endif
    std::vector<std::pair<std::string, std::pair<Bytes, std::vector<Rec>>>> base;
    auto b = [&](const std::string &n, const Bytes &f, const std::vector<Rec> &r) { base.push_back({n, {f, r}}); };
    b("empty", gmk(5, 1), {});
    b("one diff byte", gmk(5, 1), {{gmk(1, 2), {}, 0}});
    b("one extra byte", gmk(5, 1), {{{}, gmk(1, 2), 0}});
    b("diff, extra", gmk(5, 1), {{gmk(2, 2), gmk(2, 3), 0}});
    b("two records", gmk(9, 1), {{gmk(2, 2), gmk(1, 3), 3}, {{gmk(2, 4)}, {}, -1}});
    b("backwards", gmk(9, 1), {{gmk(3, 2), {}, -3}, {gmk(3, 4), gmk(1, 5), 0}});
    b("many small", gmk(60, 1), {{gmk(3, 2), {}, 7}, {{}, gmk(3, 3), 5}, {gmk(9, 4), gmk(2, 5), -20}, {{}, {}, 3}, {gmk(30, 7), gmk(1, 6), 0}});
    for (size_t n : {127, 128, 129, 255, 256, 257, 600})
        b(strf("buffers of %zu", n), gmk(n + 3, 1, 1), {{gmk(n, 2, 1), gmk(n, 3, 1), -(int64_t)n + 2}, {Bytes(n, 0), {}, 1}, {{}, gmk(n, 4), 0}});
    b("zeros 5000", gmk(5000, 1), {{Bytes(5000, 0), {}, 0}});
    b("random 9000", gmk(4000, 1), {{gmk(4000, 2), gmk(5000, 3), -4000}});
    b("zeros 300000", gmk(300000, 1, 1), {{Bytes(300000, 0), Bytes(20, 7), -1000}});
    b("fixed extra 200000", gmk(10, 1), {{{}, Bytes(200000, 0x41), 3}, {gmk(5, 1), {}, 0}});
    b("mixed 120000", gmk(70000, 1), {{gmk(60000, 2, 1), gmk(60000, 3, 1), -30000}, {Bytes(20000, 0), {}, 0}});
    b("random 150000", gmk(70000, 1), {{gmk(70000, 2), gmk(80000, 3), 0}});
    {   // 2000 records
        std::vector<Rec> v;
        for (int i = 0; i < 2000; i++) v.push_back({gmk(i % 7, i, i & 1), gmk(i % 5, i + 9), i % 3 - (i % 7) / 2});
        b("2000 records", gmk(40000, 1), v);
    }
    for (auto &x : base)
        for (Repr r : rs) {
            if (!c.next()) continue;
            if (r.mode == HS_MODE(15, 14) && recs_size(x.second.second) > 10000) continue;
            Item it = seq_item(x.first, x.second.first, x.second.second, r);
            c.desc(it.name + " patch " + hex(it.patch, 300));
            explore(c, it);
        }
    // in-place
    std::vector<Geo> gs = {{8, 4, 4, 4, 0}, {8, 4, 4, 4, 3}, {12, 4, 4, 7, 9}, {12, 4, 0, 12, 10}, {900, 300, 300, 520, 580}, {1024, 256, 512, 400, 1000},
                           {516, 129, 129, 380, 500}, {1200, 4, 8, 1190, 1195}, {163840, 4096, 81920, 81000, 163000}, {262144, 65536, 65536, 131000, 190000}};
    if (c.thorough)
        for (int64_t seg : {1, 3, 5}) geos(seg, 4, false, [&](const Geo &g) { gs.push_back(g); });
    for (auto &g : gs)
        for (int style = 0; style < 5; style++)
            for (Repr r : rs) {
                if (g.mem > 2000 && (r.mode == 5 || r.mode == 2 || style == 0 || style == 3 || r.mode == HS_MODE(15, 14))) continue;
                if (!c.next()) continue;
                Item it;
                it.name = gname(g, style, r);
                it.inp = true;
                it.g = g;
                contents(g, style == 1 ? 1 : 0, it.from, it.to);
                it.comp = r.comp;
                it.header = inp_header(r.comp, g).size();
                it.patch = inp_patch(it.from, g, it.to, style, r);
                if (g.to) {
                    Bytes sh = inp_shifted(it.from, g);
                    for (int64_t i = 0; i * g.seg < g.to; i++) put(it.payload, inp_segment(sh, g, it.to, i, style));
                }
                c.desc(it.name + " patch " + hex(it.patch, 300));
                explore(c, it);
            }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
