// C18 (C library): every size in a patch is decoded exactly, or refused.
#include "env.hpp"

static int64_t SEEKS[8];
static int NSEEK, NWRITE;
static int rd(void *, uint8_t *b, size_t n) { memset(b, 0, n); return 0; }
static int sk(void *, int off) { if (NSEEK < 8) SEEKS[NSEEK] = off; NSEEK++; return 0; }
static uint64_t WR;
static int wr(void *, const uint8_t *, size_t n) { WR += n; return 0; }
static Bytes PADDED(int64_t v, int pad)
{
    // the same value with unneeded zero groups at the end
    Bytes b = vsize(v);
    while (pad--) { b.back() |= 0x80; b.push_back(0); }
    return b;
}
static int runp(const Bytes &p, size_t cut)
{
    static detools_apply_patch_t o;
    NSEEK = 0;
    WR = 0;
    int r = detools_apply_patch_init(&o, rd, sk, p.size(), wr, NULL);
    if (r == 0 && cut) r = detools_apply_patch_process(&o, p.data(), cut);
    if (r == 0) r = detools_apply_patch_process(&o, p.data() + cut, p.size() - cut);
    int f = detools_apply_patch_finalize(&o);
    return r < 0 ? r : f;
}
// an adjustment of v: the from-data is moved by exactly v, or the patch is refused
static void adjustment(Ctx &c, int64_t v, int pad)
{
    Bytes enc = PADDED(v, pad);
    Bytes p = {0x00, 0x02, 0x00, 0x00, 0x01, 0x55};
    put(p, enc);
    put(p, Bytes{0x01, 0x00, 0x00, 0x00});
    int r = runp(p, 0);
    c.count(0);
    bool must = enc.size() <= 4, exact = r == 2 && WR == 2 && NSEEK >= 1 && SEEKS[0] == v && (NSEEK < 2 || SEEKS[1] == 0);
    if (v == 0 && r == 2 && NSEEK == 0) exact = true;
    if (r >= 0 && !exact) c.fail(strf("adjustment %lld (%zu bytes): result %d, from-data moved by %lld", (long long)v, enc.size(), r, (long long)SEEKS[0]));
    if (r < 0 && must) c.fail(strf("adjustment %lld (%zu bytes) refused with %d", (long long)v, enc.size(), r));
    if (r < 0) c.count(5); else c.count(4);
    if (pad == 0 && enc.size() > 1 && (v & 0xff) == 0) {
        // and over two process calls, split inside the size
        int r2 = runp(p, 7);
        if (r2 != r || (r2 >= 0 && SEEKS[0] != v)) c.fail(strf("adjustment %lld split: result %d, moved by %lld", (long long)v, r2, (long long)SEEKS[0]));
    }
}
// a to-data size of v in the header, a diff or an extra size of v
static void sized(Ctx &c, int64_t v, int pad, int where)
{
    Bytes enc = PADDED(v, pad);
    // the to-data is zeros: a CRLE run makes the patch small
    Bytes p = {0x02};
    put(p, where == 0 ? enc : vsize(v));
    Bytes pre = {0x00}, post;
    if (where == 2) put(pre, Bytes{0x00});
    put(pre, where ? enc : vsize(v));
    if (where != 2) post = Bytes{0x00, 0x00}; else post = Bytes{0x00};
    p.push_back(0); put(p, usize7(pre.size())); put(p, pre);
    if (v) { p.push_back(1); put(p, usize7(v)); p.push_back(0); }
    p.push_back(0); put(p, usize7(post.size())); put(p, post);
    int r = runp(p, 0);
    c.count(0);
    bool must = enc.size() <= 4 && vsize(v).size() <= 4 && v > 0;
    if (r >= 0 && (r != v || WR != (uint64_t)v)) c.fail(strf("size %lld (%zu bytes) place %d: result %d, %llu bytes written", (long long)v, enc.size(), where, r, (unsigned long long)WR));
    if (r < 0 && must) c.fail(strf("size %lld (%zu bytes) place %d refused with %d", (long long)v, enc.size(), where, r));
    c.distinct_add(fnv(p));
}
// sizes of the in-place header, seen in the addresses the memory callbacks get
struct M { int64_t lo = INT64_MAX, hi = -1, moved = 0; uint64_t writes = 0; };
static int mr(void *, void *d, uintptr_t, size_t n) { memset(d, 0, n); return 0; }
static int mw(void *a, uintptr_t d, void *, size_t n) { M *m = (M *)a; m->writes++; if ((int64_t)d < m->lo) m->lo = d; if ((int64_t)(d + n) > m->hi) m->hi = d + n; return 0; }
static int me(void *, uintptr_t, size_t) { return 0; }
static int ss(void *, int) { return 0; }
static int sg(void *, int *s) { *s = 0; return 0; }
static void inplace(Ctx &c, int64_t seg, int pad)
{
    // memory of four segments, from-data of the last byte of the first segment and one more, moved by two
    for (int where = 0; where < 5; where++) {
        int64_t from = 3, to = 1;
        int64_t val[5] = {4 * seg, seg, 2 * seg, from, to};
        Bytes p = {0x10};
        for (int k = 0; k < 5; k++) put(p, PADDED(val[k], k == where ? pad : 0));
        size_t longest = 0;
        for (int k = 0; k < 5; k++) longest = std::max(longest, PADDED(val[k], k == where ? pad : 0).size());
        put(p, Bytes{0x00, 0x00, 0x01, 0x77, 0x00});
        static detools_apply_patch_in_place_t o;
        M m;
        int r = detools_apply_patch_in_place_init(&o, mr, mw, me, ss, sg, p.size(), &m);
        if (r == 0) r = detools_apply_patch_in_place_process(&o, p.data(), p.size());
        int f = detools_apply_patch_in_place_finalize(&o);
        if (r >= 0) r = f;
        c.count(0);
        bool must = longest <= 4 && from <= 2 * seg && to <= seg;
        // whole segments may be moved
        bool exact = r == 1 && m.lo == 0 && m.hi >= 2 * seg + std::min(from, 2 * seg) && m.hi <= 2 * seg + (from + seg - 1) / seg * seg;
        if (r >= 0 && !exact) c.fail(strf("in-place segment size %lld, padding %d of field %d: result %d, wrote %lld to %lld", (long long)seg, pad, where, r, (long long)m.lo, (long long)m.hi));
        if (r < 0 && must) c.fail(strf("in-place segment size %lld, padding %d of field %d refused with %d", (long long)seg, pad, where, r));
        c.distinct_add(fnv(p));
    }
}
static void enumerate(Ctx &c)
{
    const int64_t LIM = c.thorough ? 1ll << 27 : 1ll << 25;
    const int64_t STEP = 1 << 14;
    for (int64_t b = 0; b < LIM; b += STEP) {
        if (!c.next()) continue;
        c.desc(strf("adjustments +-%lld to %lld", (long long)b, (long long)(b + STEP)));
        for (int64_t v = b; v < b + STEP; v++)
            for (int s = 1; s >= -1; s -= 2) adjustment(c, s * v, 0);
        c.distinct_add(b);
        if (b == 0) c.sample("adjustments -16383 to 16383, each decoded to the from-data movement");
    }
    std::set<int64_t> edge;
    for (int k = 0; k < 63; k++)
        for (int64_t d = -70; d <= 70; d++) edge.insert((1ll << k) + d);
    for (int i = 0; i < 128; i += 3) for (int j = 0; j < 128; j += 5) for (int k = 0; k < 128; k += 7) edge.insert((int64_t)i << 6 | (int64_t)j << 13 | (int64_t)k << 20 | (i & 0x3f));
    edge.insert(INT64_MAX);
    for (int k = 0; k < 8; k++) {
        if (!c.next()) continue;
        c.desc(strf("adjustments around powers of two, part %d", k));
        int n = 0;
        for (int64_t v : edge) if (n++ % 8 == k && v >= 0) for (int s = 1; s >= -1; s -= 2) for (int pad = 0; pad < 7; pad++) adjustment(c, s * v, pad);
    }
    std::set<int64_t> sz;
    for (int64_t v = 0; v < 300; v++) sz.insert(v);
    for (int k = 8; k <= 27; k++) for (int64_t d : {-2, -1, 0, 1, 2, 63, 64, 65}) if (k < 22 || (d < 2 && d > -2)) sz.insert((1ll << k) + d);
    for (int k = 28; k < 32; k++) sz.insert(1ll << k);
    for (int64_t v : sz) {
        if (v > (c.thorough ? 1ll << 40 : 1ll << 24) && v != (1 << 27) - 1 && v < (1ll << 28)) continue;
        if (!c.next()) continue;
        c.desc(strf("size %lld as to-data, diff and extra size", (long long)v));
        for (int where = 0; where < 3; where++)
            for (int pad = 0; pad < (v < (1 << 16) ? 6 : 2); pad++) {
                if (v >= (1ll << 27) && where == 0 && false) continue;
                sized(c, v, pad, where);
                c.tick();
            }
    }
    for (int64_t v : edge) {
        if (v < 1 || v > 1ll << 40) continue;
        int64_t near = 1; while (near * 2 <= v + 2) near *= 2;
        if (v > 1 << 14 && llabs(v - near) > (v > 1 << 22 ? 0 : 2)) continue;
        if (!c.next()) continue;
        c.desc(strf("in-place segment size %lld", (long long)v));
        for (int pad = 0; pad < 6; pad++) inplace(c, v, pad);
    }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
