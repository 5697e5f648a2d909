// C02: the result does not depend on how the patch is split into chunks.
// Explicit-state search on the real object: a state is (patch position, bytes of
// the object, state of the environment).  A transition hands over the next chunk
// of any size (0 included).  States are reached by replaying their path on a
// fresh object, so heap state needs no copying.
#include "env.hpp"
#include "inpmodel.hpp"

static union { struct detools_apply_patch_t s; struct detools_apply_patch_in_place_t p; } OBJ;
static uint8_t BUF[1 << 16];

struct Scenario {
    std::string name;
    bool inp;
    Bytes patch;
    Bytes from;     // from-data or initial memory
    Verdict v;
    Bytes out;
    bool search;    // full state search; otherwise bounded cuts
    int cuts;       // maximum number of cuts when !search
    int seg;
};

struct Run {
    SeqEnv se;
    InpEnv ie;
    int err = 0;
    bool done = false;
};

static void start(const Scenario &sc, Run &r)
{
    memset(&OBJ, 0xa5, sizeof OBJ);
    if (sc.inp) {
        r.ie.mem = sc.from;
        r.ie.erased.assign(sc.from.size(), 0);
        r.ie.patch = &sc.patch;
        r.ie.seg = sc.seg;
        r.err = detools_apply_patch_in_place_init(&OBJ.p, env_mem_read, env_mem_write, env_mem_erase, env_step_set,
                                                  env_step_get, sc.patch.size(), &r.ie);
    } else {
        r.se.from = &sc.from;
        r.se.patch = &sc.patch;
        r.err = detools_apply_patch_init(&OBJ.s, env_from_read, env_from_seek, sc.patch.size(), env_to_write, &r.se);
    }
}
#if HEATSHRINK_DYNAMIC_ALLOC
// What the library allocates lies at fixed places, so that it can be part of the state.
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
static struct { uint8_t b[1 << 17] __attribute__((aligned(16))); size_t used; } SLOT[3];
static bool slots_on;
void *__wrap_malloc(size_t n)
{
    if (slots_on)
        for (auto &s : SLOT)
            if (!s.used && n > 0 && n <= sizeof s.b) { memset(s.b, 0xa5, n); s.used = n; return s.b; }
    return __real_malloc(n);
}
void __wrap_free(void *p)
{
    for (auto &s : SLOT) if (p == s.b) { s.used = 0; return; }
    __real_free(p);
}
}
static uint64_t heap_digest(uint64_t h)
{
    for (auto &s : SLOT) { h = fnv(&s.used, sizeof s.used, h); h = fnv(s.b, s.used, h); }
    return h;
}
#else
static bool slots_on;
static uint64_t heap_digest(uint64_t h) { return h; }
#endif
static void feed(const Scenario &sc, Run &r, size_t pos, size_t n)
{
    memcpy(BUF, sc.patch.data() + pos, n);
    memset(BUF + n, 0xee, 16); // over-reads see something else
    slots_on = true;
    r.err = sc.inp ? detools_apply_patch_in_place_process(&OBJ.p, BUF, n)
                   : detools_apply_patch_process(&OBJ.s, BUF, n);
    slots_on = false;
    memset(BUF, 0xdd, n);      // the chunk is gone after the call
}
static int finish(const Scenario &sc, Run &r)
{
    int f = sc.inp ? detools_apply_patch_in_place_finalize(&OBJ.p) : detools_apply_patch_finalize(&OBJ.s);
    return r.err != 0 ? r.err : f;
}
static uint64_t digest(const Scenario &sc, Run &r)
{
    uint64_t h = heap_digest(fnv(&OBJ, sc.inp ? sizeof OBJ.p : sizeof OBJ.s));
    if (sc.inp) { h = fnv(r.ie.mem, h); h = fnv(&r.ie.step, sizeof(int), h); }
    else { h = fnv(r.se.out, h); h = fnv(&r.se.pos, 8, h); }
    return h;
}
static std::string path(const std::vector<uint16_t> &p)
{
    std::string s;
    for (auto x : p) s += (s.empty() ? "" : "+") + std::to_string(x);
    return s;
}
// Judge a completed run.
static void judge(Ctx &c, const Scenario &sc, Run &r, int res, const std::vector<uint16_t> &p, uint64_t *oc)
{
    Bytes got;
    if (sc.inp) { if (res >= 0) got.assign(r.ie.mem.begin(), r.ie.mem.begin() + std::min<size_t>(res, r.ie.mem.size())); }
    else got = r.se.out;
    bool ok = res >= 0;
    const char *bad = 0;
    if (ok && sc.v == REJECT) bad = "succeeded, must fail";
    else if (!ok && sc.v == ACCEPT) bad = "failed, must succeed";
    else if (ok && (res != (int)sc.out.size() || got != sc.out)) bad = "succeeded with wrong data";
    else if (sc.inp && !r.ie.oob.empty()) bad = "accessed memory out of range";
    if (bad)
        c.fail(strf("%s: chunks %s: %s: result %d (%s)\noutput   %s\nexpected %s (verdict %s)\npatch %s\nfrom %s", sc.name.c_str(),
                    path(p).c_str(), bad, res, res < 0 ? detools_error_as_string(res) : "-", hex(got, 120).c_str(),
                    hex(sc.out, 120).c_str(), vname(sc.v), hex(sc.patch).c_str(), hex(sc.from, 100).c_str()));
    *oc = fnv(got, (uint64_t)ok);
}

static void explore(Ctx &c, const Scenario &sc)
{
    size_t n = sc.patch.size();
    std::set<uint64_t> outcomes;
    uint64_t oc;
    if (sc.search) {
        struct Node { size_t pos; std::vector<uint16_t> path; };
        std::vector<Node> q;
        std::unordered_set<uint64_t> seen;
        q.push_back({0, {}});
        for (size_t qi = 0; qi < q.size(); qi++) {
            Node nd = q[qi];
            c.count(1);
            c.tick();
            for (size_t k = 0; k + nd.pos <= n; k++) {
                if (k == 0 && !nd.path.empty() && nd.path.back() == 0) continue;
                Run r;
                start(sc, r);
                size_t pos = 0;
                for (auto x : nd.path) { feed(sc, r, pos, x); pos += x; }
                feed(sc, r, nd.pos, k);
                c.count(2);
                std::vector<uint16_t> p = nd.path;
                p.push_back(k);
                if (r.err != 0 || nd.pos + k == n) {
                    bool err = r.err != 0;
                    uint64_t dg = digest(sc, r);
                    int res = finish(sc, r);
                    c.count(3);
                    judge(c, sc, r, res, p, &oc);
                    outcomes.insert(oc);
                    if (err || k == 0) continue;
                    // a trailing empty chunk is a further state
                    if (seen.insert(fnv(&dg, 8, n)).second) q.push_back({n, p});
                    continue;
                }
                uint64_t h = digest(sc, r);
                size_t np = nd.pos + k;
                h = fnv(&np, sizeof np, h);
                // Release heap state, if any, without touching the environment that matters.
                (void)finish(sc, r);
                if (seen.insert(h).second) q.push_back({np, p});
            }
        }
    } else {
        // all chunkings with at most sc.cuts cuts, and all uniform ones
        std::vector<std::vector<uint16_t>> sets;
        auto run = [&](const std::vector<uint16_t> &p) {
            Run r;
            start(sc, r);
            size_t pos = 0;
            for (auto x : p) { if (r.err) break; feed(sc, r, pos, x); pos += x; c.count(2); }
            int res = finish(sc, r);
            c.count(3);
            c.count(1);
            c.tick();
            judge(c, sc, r, res, p, &oc);
            outcomes.insert(oc);
        };
        for (size_t k = 1; k <= n; k++) {
            std::vector<uint16_t> p;
            for (size_t a = 0; a < n; a += k) p.push_back(std::min(k, n - a));
            run(p);
        }
        std::function<void(size_t, int, std::vector<uint16_t>)> rec = [&](size_t at, int left, std::vector<uint16_t> p) {
            std::vector<uint16_t> q = p;
            q.push_back(n - at);
            run(q);
            if (!left) return;
            for (size_t k = 1; at + k < n; k++) {
                q = p;
                q.push_back(k);
                rec(at + k, left - 1, q);
            }
        };
        rec(0, sc.cuts, {});
    }
    for (auto o : outcomes) c.distinct_add(fnv(sc.patch, o));
    c.sample(sc.name + strf(": %zu bytes, verdict %s, distinct outcomes %zu, patch %s", n, vname(sc.v), outcomes.size(), hex(sc.patch, 80).c_str()));
}

// Large patches: chunks of every size near a power of two, and a first chunk of such a size.
static void far(Ctx &c, const Scenario &sc)
{
    size_t n = sc.patch.size();
    std::set<size_t> sizes = {n};
    for (int k = 3; k < 24; k++) for (int d : {-1, 0, 1}) if ((1u << k) + d < n) sizes.insert((1 << k) + d);
    auto run = [&](const std::vector<size_t> &chunks, const std::string &how) {
        int res;
        Bytes got;
        std::string oob;
        if (sc.inp) {
            InpEnv e;
            e.mem = sc.from;
            e.erased.assign(sc.from.size(), 0);
            e.patch = &sc.patch;
            res = inp_process(e, chunks);
            got.assign(e.mem.begin(), e.mem.begin() + sc.out.size());
            oob = e.oob;
        } else {
            SeqEnv e;
            e.from = &sc.from;
            e.patch = &sc.patch;
            res = seq_process(e, chunks).res;
            got = e.out;
        }
        c.count(1);
        c.count(3);
        c.tick();
        if (sc.v == ACCEPT ? res != (int)sc.out.size() || got != sc.out || !oob.empty() : res >= 0)
            c.fail(sc.name + ", " + how + strf(": result %d (%s), to-data %s %s, expected %s", res, res < 0 ? detools_error_as_string(res) : "-",
                                              got == sc.out ? "right" : "wrong", oob.c_str(), vname(sc.v)));
    };
    for (size_t k : sizes) {
        run(uniform(n, k), strf("chunks of %zu", k));
        run({k}, strf("%zu and then the rest", k));
        if (n > 2 * k) run({n - k}, strf("all but %zu and then the rest", k));
        run({0, k, 0, 1}, strf("0, %zu, 0, 1 and then the rest", k));
    }
    c.distinct_add(fnv(sc.patch));
    c.sample(sc.name + strf(": %zu bytes, %zu chunk sizes", n, sizes.size()));
}
static Bytes mk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}

static void add_seq(std::vector<Scenario> &v, const std::string &name, const Bytes &from, const Bytes &patch, bool search, int cuts)
{
    Ref r = ref_seq(from, patch);
    v.push_back({name, false, patch, from, r.v, r.out, search, cuts, 0});
}
static void add_inp(std::vector<Scenario> &v, const std::string &name, const Bytes &mem, const Bytes &patch, bool search, int cuts, int seg)
{
    RefInp r = ref_inp(mem, patch);
    if (r.why == "odd geometry" || (r.header_ok && r.g.mem != (int64_t)mem.size())) return;
    v.push_back({name, true, patch, mem, r.v, r.out, search, cuts, 0});
}

static void enumerate(Ctx &c)
{
    std::vector<Scenario> v;
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_CRLE, 2}, {C_HS, 0}, {C_HS, 1}, {C_LZMA, 0}};
#if HEATSHRINK_DYNAMIC_ALLOC
    rs = {{C_HS, 0}, {C_HS, 1}, {C_HS, HS_MODE(4, 3)}, {C_HS, HS_MODE(11, 4)}, {C_HS, HS_MODE(15, 14)}};
#endif
    std::vector<std::pair<Bytes, std::vector<Rec>>> base;
    base.push_back({mk(12, 1), {{mk(3, 2), mk(2, 3), 1}, {{}, {}, -2}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}}});
    base.push_back({mk(80, 1), {{mk(66, 2, 1), mk(3, 3), -60}, {mk(2, 4), mk(1, 9), 64}}});
    base.push_back({mk(4, 1), {{{}, Bytes(40, 7), 70}, {{}, {}, -68}, {{1, 2}, Bytes(25, 9), 0}}});
    base.push_back({Bytes(8300, 5), {{Bytes(8200, 0), {}, -8200}, {Bytes(3, 1), mk(4, 8), 0}}});
    base.push_back({mk(200, 1), {{Bytes(130, 0), mk(2, 4), -130}, {Bytes(129, 3), {}, 0}}});
    int bi = 0;
    for (auto &b : base) {
        for (Repr r : rs) {
            Bytes p = seq_patch(b.second, r);
            std::string nm = strf("seq %d %s/%d", bi, cname(r.comp), r.mode);
            bool lz = r.comp == C_LZMA;
            if (p.size() <= 150) {
                add_seq(v, nm, b.first, p, !lz, 2);
            } else {
                add_seq(v, nm, b.first, p, false, c.thorough && p.size() < 600 ? 2 : 1);
            }
            if (p.size() > 150) continue;
            // Truncated patches.
            for (size_t n = 1; n < p.size(); n++)
                add_seq(v, nm + strf(" truncated to %zu", n), b.first, Bytes(p.begin(), p.begin() + n), false,
                        c.thorough ? (lz ? 2 : 3) : n < 40 && !lz ? 2 : 1);
            // Damaged patches.
            for (size_t i = 0; i < p.size(); i++)
                for (int x : {0x01, 0x40, 0x80, 0xff}) {
                    Bytes d = p;
                    d[i] ^= x;
                    add_seq(v, nm + strf(" byte %zu xor %02x", i, x), b.first, d, false,
                            c.thorough ? 2 : p.size() < 40 && !lz && x != 0xff ? 2 : 1);
                }
            // Trailing data.
            for (Bytes t : {Bytes{0}, Bytes{0xff}, Bytes{1, 2, 3}}) {
                Bytes d = p;
                put(d, t);
                add_seq(v, nm + " with trailing data", b.first, d, false, c.thorough ? 2 : 1);
            }
        }
        bi++;
    }
    // to-size 0 and non-canonical sizes
    add_seq(v, "seq empty", mk(3, 1), {0, 0}, true, 0);
    add_seq(v, "seq empty crle", mk(3, 1), {2, 0}, true, 0);
    add_seq(v, "seq empty, 3-byte size", mk(3, 1), {2, 0x80, 0x80, 0}, true, 0);
    for (Repr r : rs) {
        Bytes h = {(uint8_t)r.comp, 0x85, 0x80, 0x00};
        Bytes pl = {0x80, 0x00, 0x80, 0x80, 0x00, 0x85, 0x00, 1, 2, 3, 4, 5, 0xc1, 0x00};
        put(h, compress(pl, r));
        add_seq(v, strf("seq padded sizes %s/%d", cname(r.comp), r.mode), mk(3, 1), h, r.comp != C_LZMA, 2);
    }
    // In-place.
    struct IB { Geo g; int style; };
    for (IB b : std::vector<IB>{{{12, 4, 4, 7, 9}, 2}, {{16, 4, 8, 8, 6}, 1}, {{80, 40, 40, 38, 70}, 1}, {{8, 2, 2, 5, 8}, 3},
                                {{8, 4, 4, 4, 8}, 0}, {{8, 8, 0, 8, 4}, 0}, {{300, 150, 150, 140, 260}, 4}}) {
        for (Repr r : rs) {
            Bytes mem = mk(b.g.mem, 5, b.g.mem > 100), to = mk(b.g.to, 6, b.g.mem > 100);
            Bytes p = inp_patch(mem, b.g, to, b.style, r);
            bool lz = r.comp == C_LZMA;
            std::string nm = strf("in-place mem %d seg %d shift %d from %d to %d %s/%d", (int)b.g.mem, (int)b.g.seg,
                                  (int)b.g.shift, (int)b.g.from, (int)b.g.to, cname(r.comp), r.mode);
            RefInp chk = ref_inp(mem, p);
            if (chk.v != ACCEPT || chk.out != to) { fprintf(stderr, "model: %s: %s\n", nm.c_str(), chk.why.c_str()); abort(); }
            if (p.size() <= 110) add_inp(v, nm, mem, p, !lz, 2, b.g.seg);
            else { add_inp(v, nm, mem, p, false, c.thorough && p.size() < 400 ? 2 : 1, b.g.seg); continue; }
            for (size_t n = 1; n < p.size(); n++)
                add_inp(v, nm + strf(" truncated to %zu", n), mem, Bytes(p.begin(), p.begin() + n), false,
                        c.thorough && !lz ? 2 : 1, b.g.seg);
            for (size_t i = 0; i < p.size(); i++)
                for (int x : {0x01, 0x40, 0x80}) {
                    Bytes d = p;
                    d[i] ^= x;
                    add_inp(v, nm + strf(" byte %zu xor %02x", i, x), mem, d, false, c.thorough ? 2 : 1, b.g.seg);
                }
        }
    }
    for (auto &sc : v) {
        if (!c.next()) continue;
        c.desc(sc.name + " patch " + hex(sc.patch, 300));
        explore(c, sc);
    }
    for (Repr r : rs)
        for (int kind = 0; kind < 3; kind++)
            for (int inp = 0; inp < 2; inp++) {
                if (!c.next()) continue;
                Scenario sc;
                sc.inp = inp;
                sc.v = ACCEPT;
                sc.name = strf("large %s patch, data %d, %s/%d", inp ? "in-place" : "sequential", kind, cname(r.comp), r.mode);
                c.desc(sc.name);
                if (inp) {
                    Geo g = kind == 0 ? Geo{262144, 65536, 65536, 131000, 190000} : kind == 1 ? Geo{300000, 100000, 0, 300000, 250000} : Geo{81920, 4096, 8192, 70001, 73000};
                    sc.from = mk(g.mem, 5);
                    sc.out = mk(g.to, 6, kind == 1);
                    sc.patch = inp_patch(sc.from, g, sc.out, kind == 2 ? 3 : 1, r);
                } else {
                    std::vector<Rec> l = kind == 0 ? std::vector<Rec>{{mk(70000, 2), mk(70001, 3), -60000}, {mk(1000, 4), mk(5, 3), 50000}, {mk(65537, 2, 1), {}, 0}}
                        : kind == 1 ? std::vector<Rec>{{{}, mk(200000, 3), 131072}, {mk(66000, 3, 1), {}, 0}} : std::vector<Rec>{{Bytes(65536, 0), mk(65536, 1), 1}, {mk(65536, 2), Bytes(70000, 7), -1}};
                    sc.from = mk(200000, 1);
                    if (!recs_apply(sc.from, l, sc.out)) abort();
                    sc.patch = seq_patch(l, r);
                }
                far(c, sc);
                // damaged near the end: refused however it is split
                if (r.comp != C_NONE && r.comp != C_CRLE) continue;
                sc.v = REJECT;
                sc.name += ", cut";
                sc.patch.resize(sc.patch.size() - 3);
                far(c, sc);
            }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
