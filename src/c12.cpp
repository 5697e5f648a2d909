// C12: in-place updates never touch memory outside the stated range, refuse
// contradictory headers before touching anything, and refuse damaged records.
#include "geos.hpp"

static void check(Ctx &c, const Bytes &mem0, const Bytes &patch, const char *what, int start_step = 0)
{
    RefInp ref = ref_inp(mem0, patch);
    for (int api = 0; api < 5; api++) {
        // Ends before the stated patch size: an error, also when all records are there.
        bool early = api == 4;
        if (early && (start_step != 0 || !ref.header_ok || ref.contradictory || (patch[0] & 15) != C_NONE || ref.g.to <= 0)) continue;
        InpEnv e;
        // The memory the library may touch is the one stated in the header (when readable).
        e.mem = mem0;
        if (ref.header_ok && ref.g.mem < (int64_t)e.mem.size()) e.mem.resize(ref.g.mem);
        if (ref.header_ok && ref.g.mem > (int64_t)mem0.size()) {
            if (ref.g.mem > 4096) { if (!ref.contradictory) return; }
            else e.mem.resize(ref.g.mem, 0x5a);
        }
        if (!ref.header_ok) e.mem.clear();
        Bytes before = e.mem;
        e.erased.assign(e.mem.size(), 0);
        e.patch = &patch;
        e.strict = api != 3;
        e.use_get = e.use_set = api != 1;
        e.step = start_step;
        std::vector<Op> tr;
        e.trace = &tr;
        int res = early ? inp_process(e, uniform(patch.size(), 1), 0xa5, 1 + patch.size() % 3) : api == 2 ? inp_process(e, uniform(patch.size(), 1)) : api == 1 ? inp_process(e, {}) : inp_callbacks(e);
        c.count(0);
        const char *bad = 0;
        std::string x;
        bool touched = false;
        for (auto &o : tr) if (o.kind == 'w' || o.kind == 'e') touched = true;
        if (!e.oob.empty()) { bad = "access outside the stated memory"; x = e.oob; }
        else if (ref.contradictory && touched) bad = "contradictory header not refused before touching the memory";
        else if (ref.contradictory && ref.v == REJECT && res >= 0) bad = "contradictory header accepted";
        else if (!ref.header_ok && touched) bad = "memory touched although the header is incomplete";
        else if (start_step == 0 && res >= 0 && ref.v == REJECT) bad = "succeeded, must fail";
        else if (early && res >= 0) bad = "succeeded without all of the patch";
        else if (early) continue;
        else if (start_step == 0 && res < 0 && ref.v == ACCEPT) bad = "failed, must succeed";
        else if (start_step == 0 && res >= 0 && ref.v == ACCEPT &&
                 (res != ref.g.to || Bytes(e.mem.begin(), e.mem.begin() + res) != ref.out)) bad = "succeeded with wrong data";
        else if (ref.v == REJECT && ref.why == "type" && res != -DETOOLS_BAD_PATCH_TYPE) bad = "wrong patch type not reported as such";
        else if (ref.v == REJECT && ref.why == "compression" && res != -DETOOLS_BAD_COMPRESSION) bad = "unknown compression not reported as such";
        if (bad) {
            std::string t;
            for (auto &o : tr) if (strchr("wer", o.kind)) t += strf("%c@%lld+%lld ", o.kind, (long long)o.addr, (long long)o.size);
            c.fail(strf("%s, api %d: %s %s: result %d (%s), reference: %s (%s)\nheader mem %lld seg %lld shift %lld from %lld to %lld\npatch %s\nmemory %s\noperations %s",
                        what, api, bad, x.c_str(), res, res < 0 ? detools_error_as_string(res) : "-", vname(ref.v), ref.why.c_str(),
                        (long long)ref.g.mem, (long long)ref.g.seg, (long long)ref.g.shift, (long long)ref.g.from, (long long)ref.g.to,
                        hex(patch).c_str(), hex(mem0, 100).c_str(), t.substr(0, 600).c_str()));
        }
        if (api == 0) {
            c.count(4 + ref.v);
            if (ref.v != ACCEPT) c.distinct_add(fnv(patch));
        }
    }
}
static Bytes mk(size_t n, uint32_t s)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = s >> 24; }
    return b;
}

static void enumerate(Ctx &c)
{
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_CRLE, 2}, {C_HS, 0}, {C_LZMA, 0}};
    // 1. All header field combinations over a hostile value set.
    std::vector<int64_t> mems = {0, 1, 4, 6, 8, 12, 16, 64, 130, (1 << 27) - 1};
    std::vector<int64_t> vals = {0, 1, 2, 3, 4, 5, 8, 12, 13, 16, 63, 64, 65, 130, 256, 8192, 1 << 20, (1 << 27) - 1, -1, -4, -64, 1 << 27, 1 << 30};
    for (int64_t m : mems) for (int64_t s : vals) {
        if (!c.next()) continue;
        c.desc(strf("headers with memory %lld segment %lld", (long long)m, (long long)s));
        Bytes mem0 = mk(std::min<int64_t>(m, 4096), 3);
        for (int64_t sh : vals) for (int64_t f : vals) for (int64_t t : vals) {
            c.tick();
            Bytes b = {0x10};
            for (int64_t v : {m, s, sh, f, t}) put(b, vsize(v));
            // a body that tries to write: all-extra records of the segment size
            Bytes body;
            int64_t left = std::min<int64_t>(std::max<int64_t>(t, 0), 200);
            for (int k = 0; k < 40 && left > 0; k++) {
                int64_t n = s > 0 ? std::min(left, s) : left;
                put(body, recs_payload({{{}, Bytes(n, 0x11), 0}}));
                left -= n;
            }
            put(b, body);
            check(c, mem0, b, "header combination");
        }
    }
    // 2. Mutations of valid patches.
    struct IB { Geo g; int style; };
    std::vector<IB> bases = {{{12, 4, 4, 7, 9}, 2}, {{16, 4, 8, 8, 6}, 1}, {{8, 2, 2, 5, 8}, 3}, {{12, 4, 8, 4, 12}, 4},
                             {{8, 8, 8, 8, 8}, 0}, {{130, 65, 65, 60, 128}, 1}};
    for (size_t bi = 0; bi < bases.size(); bi++)
        for (Repr r : rs) {
            IB b = bases[bi];
            Bytes mem = mk(b.g.mem, 5), to = mk(b.g.to, 6);
            if (bi == 5) for (size_t i = 0; i < to.size(); i++) to[i] = mem[i % 60];
            Bytes p = inp_patch(mem, b.g, to, b.style, r);
            for (size_t i = 0; i <= p.size(); i++) {
                if (!c.next()) continue;
                c.desc(strf("base %zu %s/%d: mutations at %zu", bi, cname(r.comp), r.mode, i));
                check(c, mem, Bytes(p.begin(), p.begin() + i), "truncation");
                for (int st : {1, 2, 3, 1000000}) check(c, mem, Bytes(p.begin(), p.begin() + i), "truncation", st);
                for (int x = 0; x < 256; x++) {
                    if (i < p.size()) {
                        Bytes d = p;
                        d[i] = x;
                        check(c, mem, d, "substitution");
                        if (x % 8 == 1) for (int st : {1, 3}) check(c, mem, d, "substitution, resumed", st);
                    }
                    if (x % 3 == 0 || c.thorough) {
                        Bytes d = p;
                        d.insert(d.begin() + i, x);
                        check(c, mem, d, "insertion");
                    }
                }
                if (i < p.size()) {
                    Bytes d = p;
                    d.erase(d.begin() + i);
                    check(c, mem, d, "deletion");
                    for (size_t j = i + 1; j < p.size() && (c.thorough || p.size() < 45); j++)
                        for (int x : {0x00, 0x01, 0x3f, 0x40, 0x41, 0x80, 0xff})
                            for (int y : {0x00, 0x01, 0x3f, 0x40, 0x41, 0x80, 0xff}) {
                                Bytes d = p;
                                d[i] = x;
                                d[j] = y;
                                check(c, mem, d, "two substitutions");
                            }
                }
            }
        }
    // 3. Record token sequences: sizes and adjustments of a hostile alphabet in
    //    the first and second segment.
    std::vector<int64_t> sizes = {0, 1, 2, 3, 4, 5, 9, -1, -2, -4, 127, 128, (1 << 27) - 1, -(1 << 27) + 1};
    std::vector<int64_t> adjs = {0, 1, 3, 4, 7, 8, -1, -4, -5, -8, -12, 100, (1 << 27) - 1, -(1 << 27) + 1};
    Geo g = {12, 4, 4, 7, 7};
    Bytes mem = mk(12, 9);
    for (int seg = 0; seg < 2; seg++)
        for (int64_t d : sizes) for (int64_t x : sizes) {
            if (!c.next()) continue;
            c.desc(strf("record tokens, segment %d, diff %lld extra %lld", seg, (long long)d, (long long)x));
            for (int64_t a : adjs) for (int64_t d2 : sizes) for (int64_t x2 : {0ll, 1ll, 2ll, 4ll, -1ll}) {
                c.tick();
                Bytes p;
                if (seg == 1) put(p, recs_payload({{{}, {1, 2, 3, 4}, 0}}));
                put(p, vsize(0));
                auto sz = [&](int64_t v) {
                    put(p, vsize(v));
                    for (int64_t k = 0; k < v && k < 12; k++) p.push_back(k + 1);
                };
                sz(d); sz(x);
                put(p, vsize(a));
                sz(d2); sz(x2);
                put(p, vsize(0));
                for (int k = 0; k < 24; k++) p.push_back(k % 4 == 3);
                for (Repr r : {Repr{C_NONE, 0}, Repr{C_HS, 0}}) {
                    Bytes b = inp_header(r.comp, g);
                    put(b, compress(p, r));
                    check(c, mem, b, "record tokens");
                    if (a > 50 || a < -50) check(c, mem, b, "record tokens, resumed", 2);
                }
            }
        }
    // Many large adjustments in a row: addresses must not wrap around into range.
    for (int n = 1; n <= 64; n++) {
        if (!c.next()) continue;
        c.desc(strf("%d large adjustments in a row", n));
        for (int64_t a : {(1ll << 27) - 1, -(1ll << 27) + 1, (1ll << 26), -(1ll << 26)}) {
            Bytes p = vsize(0);
            for (int k = 0; k < n; k++) { put(p, vsize(0)); put(p, vsize(0)); put(p, vsize(a)); }
            for (int k = 0; k < 3; k++) { put(p, vsize(1)); p.push_back(1); put(p, vsize(0)); put(p, vsize(a > 0 ? n * 8 : 0)); }
            for (int k = 0; k < 20; k++) p.push_back(0);
            Bytes b = inp_header(C_NONE, g);
            put(b, p);
            check(c, mem, b, "adjustments");
        }
    }
    // Large memories: every header field off by a little, a segment or 16 bits, and damaged records.
    for (Geo g : far_geos())
        for (int field = 0; field < 6; field++)
            for (int ri = 0; ri < 2; ri++) {
                if (g.mem > 1000000 || g.seg == 1) continue;
                if (!c.next()) continue;
                c.desc(gname(g, 1, rs[ri]) + strf(" field %d", field));
                Bytes mem, to;
                contents(g, 1, mem, to);
                Bytes p = inp_patch(mem, g, to, 1, rs[ri]);
                if (field < 5) {
                    size_t hs = inp_header(0, g).size();
                    Bytes body(p.begin() + hs, p.end());
                    for (int64_t d : {(int64_t)-65536, -g.seg, (int64_t)-1, (int64_t)0, (int64_t)1, g.seg, (int64_t)65536, g.mem, (int64_t)1 << 24, (int64_t)1 << 26}) {
                        Geo h = g;
                        int64_t *f[5] = {&h.mem, &h.seg, &h.shift, &h.from, &h.to};
                        *f[field] += d;
                        if (*f[field] < 0 || h.mem > g.mem) continue;
                        Bytes b = inp_header(rs[ri].comp, h);
                        put(b, body);
                        check(c, mem, b, "header field of a large memory");
                        c.tick();
                    }
                } else {
                    std::set<size_t> at;
                    for (size_t k = 0; k < 24; k++) at.insert(k);
                    for (size_t k = 32; k < p.size(); k = k * 3 / 2) at.insert(k);
                    for (size_t k = 1; k < 6; k++) at.insert(p.size() - k);
                    for (size_t k : at) {
                        if (k >= p.size()) continue;
                        check(c, mem, Bytes(p.begin(), p.begin() + k), "truncation of a large patch");
                        for (int x : {0x01, 0x40, 0x80}) { Bytes d = p; d[k] ^= x; check(c, mem, d, "substitution in a large patch"); c.tick(); }
                    }
                }
            }
    // 4. First bytes.
    for (int h = 0; h < 256; h++) {
        if (!c.next()) continue;
        c.desc(strf("header byte %02x", h));
        for (Repr r : rs) {
            Geo gg = {12, 4, 4, 7, 9};
            Bytes m = mk(12, 5), p = inp_patch(m, gg, mk(9, 6), 2, r);
            p[0] = h;
            check(c, m, p, "header byte");
        }
    }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
