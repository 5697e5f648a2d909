// C04: no patch bytes can make the library read or write out of bounds, use
// uninitialised data, execute undefined arithmetic or loop forever.
// Run in ASan+UBSan and MSan builds; the runner's watchdog detects hangs.
#ifndef HEATSHRINK_DYNAMIC_ALLOC
#define HEATSHRINK_DYNAMIC_ALLOC 0
#endif
#include "env.hpp"
#include "inpmodel.hpp"

static Bytes FROM, MEM0;

static void run_seq(Ctx &c, const Bytes &patch)
{
    for (int api = 0; api < 3; api++) {
        SeqEnv e;
        e.from = &FROM;
        e.patch = &patch;
        e.out_limit = 1 << 16;   // a stated to-size may be huge; the environment says "disk full"
        Res r = api == 0 ? seq_callbacks(e) : api == 1 ? seq_process(e, {}) : seq_process(e, uniform(patch.size(), 1));
        c.count(0);
        if (e.badreq) c.fail(strf("patch callback asked for data past the end of the patch: %s", hex(patch).c_str()));
        if (api == 1) c.count(r.res < 0 ? 5 : 4);
        if (api == 1) c.distinct_add(fnv(patch));
        if (api == 1 && r.res >= 0 && e.out.size()) c.sample("sequential " + hex(patch, 60) + strf(" -> %d", r.res));
    }
}
static void run_inp(Ctx &c, const Bytes &patch)
{
    for (int api = 0; api < 3; api++) {
        InpEnv e;
        e.mem = MEM0;
        e.erased.assign(e.mem.size(), 0);
        e.patch = &patch;
        e.use_get = e.use_set = api != 2;
        int r = api == 0 ? inp_callbacks(e) : api == 1 ? inp_process(e, {}) : inp_process(e, uniform(patch.size(), 1));
        c.count(0);
        if (api == 1) c.count(r < 0 ? 5 : 4);
        if (api == 1) c.distinct_add(fnv(patch));
    }
}
static Bytes mk(size_t n, uint32_t s)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = s >> 24; }
    return b;
}

// Odd but legal call sequences.
static void sequences(Ctx &c, const Bytes &patch, bool inp)
{
    // process calls after failure or completion, finalize right away, empty chunks
    for (int mode = 0; mode < 6; mode++) {
        SeqEnv se;
        se.from = &FROM;
        se.patch = &patch;
        se.out_limit = 1 << 16;
        InpEnv ie;
        ie.mem = MEM0;
        ie.erased.assign(ie.mem.size(), 0);
        ie.patch = &patch;
        auto *s = (detools_apply_patch_t *)malloc(sizeof(detools_apply_patch_t));
        auto *p = (detools_apply_patch_in_place_t *)malloc(sizeof(detools_apply_patch_in_place_t));
        FILL(s, 0xa5, sizeof *s);
        FILL(p, 0xa5, sizeof *p);
        int r;
        if (inp) r = API(detools_apply_patch_in_place_init(p, env_mem_read, env_mem_write, env_mem_erase, env_step_set, env_step_get, patch.size(), &ie));
        else r = API(detools_apply_patch_init(s, env_from_read, env_from_seek, patch.size(), env_to_write, &se));
        auto proc = [&](size_t a, size_t n) {
            uint8_t *b = (uint8_t *)malloc(n ? n : 1);
            if (n) memcpy(b, patch.data() + a, n);
            GAVE(b, n);
            int r = inp ? API(detools_apply_patch_in_place_process(p, b, n)) : API(detools_apply_patch_process(s, b, n));
            free(b);
            return r;
        };
        size_t n = patch.size();
        if (mode == 1) proc(0, 0);
        if (mode == 2) { proc(0, n / 2); proc(0, 0); proc(n / 2, n - n / 2); }
        if (mode == 3) { proc(0, n); proc(0, n); proc(0, 0); }
        if (mode == 4) { for (size_t i = 0; i < n; i++) proc(i, 1); for (size_t i = 0; i < n; i++) proc(i, 1); }
        if (mode == 5) { proc(0, n); }
        r = inp ? API(detools_apply_patch_in_place_finalize(p)) : API(detools_apply_patch_finalize(s));
        if (!inp) { size_t x = API(detools_apply_patch_get_to_offset(s)); x = API(detools_apply_patch_get_patch_offset(s)); }
        free(s);
        free(p);
        c.count(0);
    }
}

static void enumerate(Ctx &c)
{
    FROM = mk(20, 3);
    MEM0 = mk(16, 4);
    std::vector<uint8_t> al = {0, 1, 2, 3, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xff};
    std::vector<int> comps = {C_NONE, C_CRLE, C_HS};
    std::vector<uint8_t> hs = {0x44};
#if HEATSHRINK_DYNAMIC_ALLOC
    comps = {C_HS};
    hs = {0x44, 0x00, 0xb0, 0xbb};
#endif
    auto strings = [&](const Bytes &prefix, int len, bool inp, const char *what) {
        int64_t total = 1;
        for (int i = 0; i < len; i++) total *= al.size();
        for (int64_t g = 0; g < total; g += 1000) {
            if (!c.next()) continue;
            c.desc(strf("%s: strings %lld.. of length %d after %s", what, (long long)g, len, hex(prefix).c_str()));
            for (int64_t k = g; k < g + 1000 && k < total; k++) {
                c.tick();
                int64_t q = k;
                Bytes b = prefix;
                for (int i = 0; i < len; i++) { b.push_back(al[q % al.size()]); q /= al.size(); }
                if (inp) run_inp(c, b); else run_seq(c, b);
            }
        }
    };
    int L = c.thorough ? 5 : 4;
    // raw strings after the first byte(s): headers included
    for (int comp : comps) {
        strings({(uint8_t)comp}, L, false, "sequential");
        strings({(uint8_t)(0x10 | comp)}, L + (c.thorough ? 1 : 0), true, "in-place");
        for (Bytes h : std::vector<Bytes>{{2}, {0x82, 1}, {0x80, 0x80, 0x40}, {0xbf, 0xff, 0xff, 0x7f}}) {
            Bytes p = {(uint8_t)comp};
            put(p, h);
            if (comp == C_HS)
                for (uint8_t x : hs) { p.push_back(x); strings(p, L - (HEATSHRINK_DYNAMIC_ALLOC + 0), false, "sequential payload"); p.pop_back(); }
            else
                strings(p, L, false, "sequential payload");
            if (comp == C_CRLE) {
                // after a well-formed start
                Bytes q = p;
                put(q, {0, 3, 0, 1, 9});
                strings(q, L, false, "sequential crle tail");
                q = p;
                put(q, {0, 1, 0, 1, 4, 0});
                strings(q, L, false, "sequential crle repeated tail");
            }
        }
        for (Geo g : std::vector<Geo>{{16, 4, 4, 8, 8}, {16, 16, 0, 9, 16}, {16, 8, 8, 16, 3}}) {
            Bytes p = inp_header(comp, g);
            if (comp == C_HS)
                for (uint8_t x : hs) { p.push_back(x); strings(p, L - (HEATSHRINK_DYNAMIC_ALLOC + 0), true, "in-place payload"); p.pop_back(); }
            else
                strings(p, L, true, "in-place payload");
        }
    }
    // Heatshrink header byte: every setting.
    for (int h = 0; h < 256; h++) {
        if (!c.next()) continue;
        c.desc(strf("heatshrink header %02x", h));
        for (int a = 0; a < 256; a += 5) for (int b = 0; b < 256; b += 51) {
            run_seq(c, {C_HS, 5, (uint8_t)h, (uint8_t)a, (uint8_t)b, 0, 0xff, 0x55, 0});
            Bytes p = inp_header(C_HS, {16, 4, 4, 8, 8});
            put(p, {(uint8_t)h, (uint8_t)a, (uint8_t)b, 0, 0xff, 0x55, 0});
            run_inp(c, p);
        }
    }
    // Mutations of valid patches.
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_CRLE, 2}, {C_HS, 0}, {C_HS, 2}};
#if HEATSHRINK_DYNAMIC_ALLOC
    rs = {{C_HS, 0}, {C_HS, 2}, {C_HS, HS_MODE(4, 3)}, {C_HS, HS_MODE(9, 8)}, {C_HS, HS_MODE(15, 4)}};
#elif !defined(VERIF_MSAN)
    rs.push_back({C_LZMA, 0});
    rs.push_back({C_LZMA, 1 << 20});
#endif
    std::vector<std::vector<Rec>> base = {
        {{mk(3, 2), mk(2, 3), 1}, {{}, {}, -2}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}},
        {{Bytes(20, 0), Bytes(300, 4), -20}, {Bytes(3, 1), {}, 0}},
        {{{}, Bytes(1500, 7), 0}, {mk(4, 1), {}, -2}, {mk(4, 1), {}, 0}},
    };
    struct IB { Geo g; int style; };
    std::vector<IB> bases = {{{16, 4, 4, 7, 9}, 2}, {{16, 8, 8, 8, 16}, 1}, {{16, 2, 2, 5, 8}, 3}};
    std::vector<std::pair<bool, Bytes>> pats;
    for (Repr r : rs) {
        for (auto &b : base) if (recs_payload(b).size() < 400 || r.comp != C_NONE) { Bytes p = seq_patch(b, r); if (p.size() < 300) pats.push_back({false, p}); }
        for (auto &b : bases) pats.push_back({true, inp_patch(MEM0, b.g, mk(b.g.to, 6), b.style, r)});
    }
    for (auto &pp : pats) {
        auto &p = pp.second;
        auto run = [&](const Bytes &b) { c.tick(); if (pp.first) run_inp(c, b); else run_seq(c, b); };
        for (size_t i = 0; i <= p.size(); i++) {
            if (!c.next()) continue;
            c.desc(strf("mutations at %zu of ", i) + hex(p, 300));
            run(Bytes(p.begin(), p.begin() + i));
            if (i == p.size()) { sequences(c, p, pp.first); continue; }
            sequences(c, Bytes(p.begin(), p.begin() + i), pp.first);
            for (int x = 0; x < 256; x++) {
                Bytes d = p;
                d[i] = x;
                run(d);
                if (x % 16 == 1) {
                    sequences(c, d, pp.first);
                    d = p;
                    d.insert(d.begin() + i, x);
                    run(d);
                }
            }
            if (p.size() < (c.thorough ? 120 : 45))
                for (size_t j = i + 1; j < p.size(); j++)
                    for (int x : {0x00, 0x01, 0x41, 0x80, 0xff})
                        for (int y : {0x00, 0x01, 0x41, 0x80, 0xff}) {
                            Bytes d = p;
                            d[i] = x;
                            d[j] = y;
                            run(d);
                        }
        }
    }
    // Long hostile structures: many empty records with large adjustments, many empty crle segments.
    for (int n : {1, 2, 15, 16, 17, 18, 31, 32, 33, 34, 64, 200}) {
        if (!c.next()) continue;
        c.desc(strf("%d repeated hostile records", n));
        for (int64_t a : {(1ll << 27) - 1, -(1ll << 27) + 1, 1ll << 26, 5ll}) {
            Bytes p = vsize(0);
            for (int k = 0; k < n; k++) { put(p, vsize(0)); put(p, vsize(0)); put(p, vsize(a)); }
            put(p, vsize(2)); put(p, {1, 2}); put(p, vsize(0)); put(p, vsize(0));
            for (Repr r : {Repr{C_NONE, 0}, Repr{C_CRLE, -6}, Repr{C_HS, 0}}) {
                Bytes b = seq_header(r.comp, 2);
                put(b, compress(p, r));
                run_seq(c, b);
                b = inp_header(r.comp, {16, 4, 4, 8, 2});
                put(b, compress(p, r));
                run_inp(c, b);
            }
        }
        Bytes b = {C_CRLE, 2};
        for (int k = 0; k < n * 50; k++) put(b, k & 1 ? Bytes{0, 0} : Bytes{1, 0, 7});
        run_seq(c, b);
        put(b, {0, 6, 0, 0, 2, 1, 2, 0});
        run_seq(c, b);
        b = {C_CRLE, 0xbf, 0xff, 0xff, 0x7f};                // to-size 2^27-1
        put(b, {0, 6, 0, 0, 0xbf, 0xff, 0xff, 0x7f, 1, 0xff, 0xff, 0xff, 0x7f, 3});
        run_seq(c, b);
    }
    // Degenerate patch sizes.
    if (c.next()) {
        c.desc("empty patch and finalize without data");
        Bytes none;
        run_seq(c, none);
        run_inp(c, none);
        sequences(c, none, false);
        sequences(c, none, true);
    }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
