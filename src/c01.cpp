// C01: every well-formed sequential patch reproduces the to-data.
#include "env.hpp"

static Bytes pattern(size_t n, int kind, uint32_t salt)
{
    Bytes b(n);
    uint32_t x = salt * 2654435761u + 12345;
    for (size_t i = 0; i < n; i++) {
        switch (kind) {
        case 0: b[i] = 0; break;
        case 1: b[i] = (uint8_t)(i + salt); break;
        case 2: x = x * 1664525u + 1013904223u; b[i] = x >> 24; break;
        case 3: b[i] = 0xff; break;
        case 4: b[i] = (i / 7) & 1 ? 0x55 : (uint8_t)(i % 3); break;
        default: b[i] = (i % 257 < 250) ? 7 : (uint8_t)i; break;
        }
    }
    return b;
}

static std::vector<Repr> reprs(bool all)
{
    std::vector<Repr> r = {{C_NONE, 0}, {C_CRLE, 0}, {C_CRLE, -6}, {C_HS, 0}};
    if (all)
        for (Repr x : std::vector<Repr>{{C_CRLE, 1}, {C_CRLE, -1}, {C_CRLE, 3}, {C_CRLE, 127}, {C_CRLE, 128}, {C_CRLE, 129},
                                        {C_CRLE, -2}, {C_HS, 1}, {C_HS, 2}, {C_HS, 3}, {C_HS, 4}})
            r.push_back(x);
    return r;
}

static void check(Ctx &c, const Bytes &from, const std::vector<Rec> &recs, const std::vector<Repr> &rs,
                  bool lzma, const std::string &what)
{
    Bytes expect;
    // The format ends a patch as soon as all to-data is produced.
    if (recs.back().diff.empty() && recs.back().extra.empty()) return;
    if (!recs_apply(from, recs, expect)) return;
    std::vector<Repr> all = rs;
    if (lzma) { all.push_back({C_LZMA, 0}); all.push_back({C_LZMA, -1}); }
    for (Repr r : all) {
        Bytes patch = seq_patch(recs, r);
        // The model's two views of the patch must agree (guards the oracle itself).
        if (expect.size() < 5000) {
            Ref ref = ref_seq(from, patch);
            if (ref.v != ACCEPT || ref.out != expect) {
                fprintf(stderr, "model mismatch %s %s: %s %s\n", what.c_str(), cname(r.comp), vname(ref.v), ref.why.c_str());
                abort();
            }
        }
        for (int api = 0; api < 3; api++) {
            if (api == 2 && patch.size() > 3000) continue;
            SeqEnv e;
            e.from = &from;
            e.patch = &patch;
            e.out_limit = expect.size();
            Res res = api == 0 ? seq_callbacks(e) : api == 1 ? seq_process(e, {}) : seq_process(e, uniform(patch.size(), 1));
            c.count(0);
            if (e.over || res.res != (int)expect.size() || e.out != expect) {
                c.fail(strf("valid %s patch (mode %d), api %s: result %d (%s), expected %zu; output %s; expected %s; wrote too much %d\n"
                            "from=%s\npatch=%s\n%s", cname(r.comp), r.mode,
                            api == 0 ? "callbacks" : api == 1 ? "process whole" : "process bytewise",
                            res.res, res.res < 0 ? detools_error_as_string(res.res) : "-", expect.size(),
                            hex(e.out, 80).c_str(), hex(expect, 80).c_str(), e.over, hex(from, 100).c_str(),
                            hex(patch, 600).c_str(), what.c_str()));
            }
        }
        if (expect.size() > 0) c.distinct_add(fnv(patch, fnv(from)));
        if (recs.size() > 1 && expect.size() > 3) c.sample(what + strf(" %s mode %d patch=%s", cname(r.comp), r.mode, hex(patch, 60).c_str()));
    }
}

static Rec rec(size_t d, size_t e, int64_t adj, int kind, uint32_t salt)
{
    return {pattern(d, kind, salt), pattern(e, kind == 0 ? 1 : kind, salt + 77), adj};
}
static std::string show(const std::vector<Rec> &rs)
{
    std::string s = "records";
    for (auto &r : rs) s += strf(" (diff %zu, extra %zu, adj %lld)", r.diff.size(), r.extra.size(), (long long)r.adj);
    return s;
}

#if HEATSHRINK_DYNAMIC_ALLOC
// Encodes with back references at chosen distances only.
static Bytes enc_far(const Bytes &p, int w, int l, const std::vector<int> &dists)
{
    BitW b;
    b.bits(((w - 4) << 4) | (l - 3), 8);
    size_t lsz = 1u << l;
    for (size_t i = 0; i < p.size();) {
        size_t bl = 0;
        int bd = 0;
        for (int d : dists) {
            size_t k = 0;
            while (k < lsz && i + k < p.size() && ((size_t)d > i + k ? 0 : p[i + k - d]) == p[i + k]) k++;
            if (k > bl) { bl = k; bd = d; }
        }
        if (bl >= 2) { b.ref(w, l, bd, bl); i += bl; }
        else b.lit(p[i++]);
    }
    return b.o;
}
// The dynamically allocated decoder: every window and lookahead, references over the whole window.
static void enumerate(Ctx &c)
{
    for (int w = 4; w <= 15; w++)
        for (int l = 3; l < w; l++) {
            int W = 1 << w;
            for (int period : {1, 3, W / 2, W - 1, W})
                for (int n : {1, 40, W - 2, W, W + 1, 2 * W + 300, 66000}) {
                    if (n > 60000 && !(c.thorough || l == w - 1 || l == 3)) continue;
                    if (n >= W - 2 && w > 12 && period != W && period != 3 && !c.thorough) continue;
                    if (n < 1 || !c.next()) continue;
                    std::vector<Rec> rs;
                    Bytes from = pattern(n + 3, 2, n), extra(n), diff(std::min(n, 300));
                    for (int i = 0; i < n; i++) extra[i] = i < period ? (uint8_t)(i * 167 + (i >> 8) * 31 + 1) : extra[i - period];
                    for (size_t i = 0; i < diff.size(); i++) diff[i] = i % 50 ? 0 : i;
                    rs.push_back({diff, extra, -(int64_t)diff.size() / 2});
                    rs.push_back({Bytes(diff.size() / 2, 3), pattern(9, 2, n), 0});
                    std::string what = strf("window %d lookahead %d period %d, ", w, l, period) + show(rs);
                    c.desc(what);
                    Bytes expect;
                    if (!recs_apply(from, rs, expect)) abort();
                    for (int far = 0; far < 2; far++) {
                        Bytes patch = seq_header(C_HS, expect.size());
                        put(patch, enc_far(recs_payload(rs), w, l, far ? std::vector<int>{period, W, 1} : std::vector<int>{}));
                        if (expect.size() < 3000) {
                            Ref ref = ref_seq(from, patch, true);
                            if (ref.v != ACCEPT || ref.out != expect) { fprintf(stderr, "model mismatch %s\n", ref.why.c_str()); abort(); }
                        }
                        for (size_t k : {(size_t)0, (size_t)1, (size_t)7, (size_t)256, patch.size()}) {
                            if (k && k < 256 && patch.size() > 20000 && !c.thorough) continue;
                            SeqEnv e;
                            e.from = &from;
                            e.patch = &patch;
                            e.out_limit = expect.size();
                            Res res = k == 0 ? seq_callbacks(e) : seq_process(e, uniform(patch.size(), k));
                            c.count(0);
                            if (e.over || res.res != (int)expect.size() || e.out != expect)
                                c.fail(strf("valid patch, chunks of %zu: result %d (%s), expected %zu; output %s; expected %s\npatch=%s\n%s", k, res.res,
                                            res.res < 0 ? detools_error_as_string(res.res) : "-", expect.size(), hex(e.out, 80).c_str(), hex(expect, 80).c_str(),
                                            hex(patch, 300).c_str(), what.c_str()));
                        }
                        c.distinct_add(fnv(patch));
                    }
                }
        }
}
#else
static void enumerate(Ctx &c)
{
    const std::vector<size_t> edge = {0, 1, 2, 3, 5, 6, 7, 62, 63, 64, 65, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257,
                                      258, 383, 384, 385, 511, 512, 513, 640, 1023, 1024, 1025};
    const std::vector<size_t> edge2 = {0, 1, 127, 128, 129, 256, 257};
    const std::vector<size_t> big = {4095, 4096, 4097, 8191, 8192, 8193, 16384};
    // 1. One record, all size pairs, several data kinds.
    for (size_t d : edge)
        for (size_t x : edge)
            for (int kind : {0, 1, 2, 4, 5}) {
                if (!c.next()) continue;
                std::vector<Rec> rs = {rec(d, x, 0, kind, d * 3 + x)};
                c.desc(show(rs) + strf(" data kind %d", kind));
                Bytes from = pattern(d + 3, 2, x);
                check(c, from, rs, reprs(kind != 0 || c.thorough), (d + x) % 7 == 3 || c.thorough, show(rs));
                // final adjustments to and past the ends of the from-data
                rs[0].adj = -(int64_t)d;
                check(c, from, rs, {{C_NONE, 0}, {C_CRLE, -6}}, false, show(rs));
                rs[0].adj = 1000;
                check(c, from, rs, {{C_NONE, 0}, {C_HS, 0}}, false, show(rs));
            }
    // 2. One record with one large part.
    for (size_t d : big)
        for (int kind : {1, 2, 5})
            for (int swap = 0; swap < 2; swap++) {
                if (!c.next()) continue;
                std::vector<Rec> rs = {rec(swap ? 1 : d, swap ? d : 1, 0, kind, d)};
                c.desc(show(rs));
                check(c, pattern(d + 3, 2, 9), rs, reprs(true), true, show(rs));
            }
    // 3. All byte sums.
    if (c.next()) {
        c.desc("all 65536 (from, diff) byte pairs");
        Bytes from(65536), diff(65536);
        for (int i = 0; i < 65536; i++) { from[i] = i >> 8; diff[i] = i; }
        check(c, from, {{diff, {}, 0}}, {{C_NONE, 0}, {C_CRLE, 0}, {C_HS, 0}}, true, "all byte pairs");
        check(c, from, {{{}, diff, 0}}, {{C_NONE, 0}, {C_CRLE, 0}, {C_HS, 0}}, true, "all bytes extra");
    }
    // 4. Long data: heatshrink window index wrap, 3/4-byte sizes.
    for (size_t n : {65535u, 65536u, 65537u, 131071u, 131072u, 200000u, 1048575u, 1048576u, 1048577u})
        for (int kind : {1, 2, 4, 5}) {
            if (n > 300000 && kind != 5 && kind != 2) continue;
            if (!c.next()) continue;
            std::vector<Rec> rs = {rec(n / 2, n - n / 2, 0, kind, n)};
            c.desc(show(rs) + strf(" kind %d", kind));
            std::vector<Repr> rr = {{C_NONE, 0}, {C_CRLE, -6}, {C_CRLE, 0}};
            if (kind != 2) rr.push_back({C_HS, 0});
            rr.push_back({C_HS, 1});
            check(c, pattern(n / 2 + 1, 2, 9), rs, rr, true, show(rs));
        }
    // Long runs: one repeated byte over all of the diff or extra, or other data around a long run.
    for (size_t n : {32767u, 32768u, 65535u, 65536u, 65537u, 65792u, 131072u, 131073u, 262144u, 1048576u, 2097151u, 2097152u, 16777215u, 16777217u})
        for (int at = 0; at < 4; at++) {
            if (n > 3000000 && at > 1) continue;
            if (!c.next()) continue;
            Rec r{Bytes(at == 0 || at == 2 ? n : 10), Bytes(at == 1 || at == 3 ? n : 10, 0xa5), 0};
            if (at == 2) for (size_t i = 0; i < 50; i++) r.diff[i] = r.diff[n - 1 - i] = i * 7 + 1;
            if (at == 3) for (size_t i = 0; i < 50; i++) r.extra[i] = r.extra[n - 1 - i] = i * 7 + 1;
            std::vector<Rec> rs = {r};
            std::string what = strf("a run of %zu bytes, place %d", n, at);
            c.desc(what);
            std::vector<Repr> rr = {{C_CRLE, 0}, {C_CRLE, -6}};
            if (n < 3000000) { rr.push_back({C_NONE, 0}); rr.push_back({C_HS, 0}); rr.push_back({C_CRLE, 70000}); }
            check(c, pattern(r.diff.size() + 1, 2, 9), rs, rr, true, what);
        }
    // LZMA with every preset and other dictionaries.
    for (uint32_t preset = 0; preset < 20; preset++)
        for (uint32_t dict : {0u, 1u << 12, 1u << 16, 1u << 20, 3u << 20, 1u << 26}) {
            if (dict > 1u << 25 && preset % 10 != 9 && !c.thorough) continue;
            if (!c.next()) continue;
            Rec r{pattern(300, 5, 1), pattern(preset * 700 + 5, preset % 6, 3), 0};
            Bytes from = pattern(301, 2, 9), patch = enc_lzma(recs_payload({r}), preset % 10 | (preset > 9 ? LZMA_PRESET_EXTREME : 0), dict), expect;
            if (!recs_apply(from, {r}, expect)) abort();
            Bytes head = seq_header(C_LZMA, expect.size());
            head.insert(head.end(), patch.begin(), patch.end());
            patch = head;
            std::string what = strf("lzma preset %u%s dictionary %u", preset % 10, preset > 9 ? "e" : "", dict);
            c.desc(what);
            for (size_t k : {(size_t)1, (size_t)13, (size_t)512, patch.size()}) {
                SeqEnv e;
                e.from = &from;
                e.patch = &patch;
                e.out_limit = expect.size();
                Res res = seq_process(e, uniform(patch.size(), k));
                c.count(0);
                if (e.over || res.res != (int)expect.size() || e.out != expect)
                    c.fail(strf("valid patch, %s, chunks of %zu: result %d (%s), expected %zu", what.c_str(), k, res.res, res.res < 0 ? detools_error_as_string(res.res) : "-", expect.size()));
            }
            c.distinct_add(fnv(patch));
        }
    // 5. Two records over edge sizes and every kind of adjustment target.
    for (size_t d1 : edge2) for (size_t x1 : edge2) for (size_t d2 : edge2) for (size_t x2 : edge2) {
        if (!c.next()) continue;
        size_t F = std::max(d1, d2) + 5;
        Bytes from = pattern(F, 2, d1 + x1);
        std::set<int64_t> targets = {0, 1, (int64_t)(F - d2), (int64_t)d1, (int64_t)F};
        for (int64_t t : targets) {
            if (t + (int64_t)d2 > (int64_t)F && d2 > 0) continue;
            std::vector<Rec> rs = {rec(d1, x1, t - (int64_t)d1, 2, 5), rec(d2, x2, 0, 4, 6)};
            c.desc(show(rs));
            check(c, from, rs, reprs(c.thorough), t == 1 && (d1 + x1 + d2 + x2) % 5 == 0, show(rs));
        }
    }
    // 6. Two, three (thorough: four) records, tiny sizes, all adjustments.
    int maxrec = c.thorough ? 4 : 3;
    const size_t F = 6;
    Bytes from = {10, 200, 33, 0, 255, 128};
    for (int n = 1; n <= maxrec; n++) {
        int smax = n == 1 ? 6 : n == 2 ? 3 : 2; // sizes 0..smax-1
        int radj = n == 4 ? 3 : 5;              // adjustments -(radj/2)..
        int64_t total = 1;
        for (int i = 0; i < n; i++) total *= (int64_t)smax * smax * radj;
        const int64_t group = 25;
        for (int64_t g = 0; g < total; g += group) {
            if (!c.next()) continue;
            for (int64_t code = g; code < g + group && code < total; code++) {
                int64_t q = code;
                std::vector<Rec> rs;
                for (int i = 0; i < n; i++) {
                    size_t d = q % smax; q /= smax;
                    size_t x = q % smax; q /= smax;
                    int adj = (int)(q % radj) - radj / 2; q /= radj;
                    rs.push_back(rec(d, x, adj, 2, code + i));
                }
                // The format ends a patch as soon as all to-data is produced.
                size_t tot = recs_size(rs);
                if (tot == 0) continue;
                if (rs.back().diff.empty() && rs.back().extra.empty()) continue;
                c.desc(show(rs));
                check(c, from, rs, reprs(n <= 2), code % 97 == 0, show(rs));
            }
        }
    }
    // 7. Leading/inner empty records in numbers, large adjustments.
    for (int k = 1; k <= 12; k++)
        for (int64_t a : {0ll, 1ll, 63ll, 64ll, 8191ll, 8192ll, 1048575ll, 1048576ll, 67108864ll, 134217727ll}) {
            if (!c.next()) continue;
            std::vector<Rec> rs;
            for (int i = 0; i < k; i++) rs.push_back({{}, {}, i & 1 ? -a : a});
            if (k & 1) rs.push_back({{}, {}, -a});
            rs.push_back(rec(3, 2, 0, 2, k));
            c.desc(show(rs));
            check(c, from, rs, reprs(true), k == 3, show(rs));
        }
    // 8. Empty to-data.
    if (c.next()) {
        c.desc("empty to-data");
        for (int comp : {C_NONE, C_LZMA, C_CRLE, C_HS})
            for (int api = 0; api < 3; api++) {
                Bytes patch = seq_header(comp, 0);
                SeqEnv e;
                e.from = &from;
                e.patch = &patch;
                Res r = api == 0 ? seq_callbacks(e) : api == 1 ? seq_process(e, {}) : seq_process(e, {1, 1});
                c.count(0);
                if (r.res != 0 || e.out.size()) c.fail(strf("empty to-data, compression %s: result %d", cname(comp), r.res));
            }
    }
}
#endif
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
