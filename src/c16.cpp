// C16: the heatshrink decoder is exact at every granularity.
#include "env.hpp"
#include "model.hpp"
#include <malloc.h>
#include <memory>
extern "C" {
#include "heatshrink_decoder.h"
}

struct Dec {
    heatshrink_decoder *d = NULL;
    size_t size = 0;
    Dec(int ib, int w, int l)
    {
#if HEATSHRINK_DYNAMIC_ALLOC
        d = heatshrink_decoder_alloc(ib, w, l);
        if (d) size = malloc_usable_size(d);
#else
        size = sizeof *d;
        d = (heatshrink_decoder *)malloc(size);
        memset(d, 0xa5, size);
        heatshrink_decoder_reset(d);
#endif
    }
    ~Dec()
    {
#if HEATSHRINK_DYNAMIC_ALLOC
        if (d) heatshrink_decoder_free(d);
#else
        free(d);
#endif
    }
};
// Reference: decodes as many complete tokens as the bits give.
static Bytes decode(const Bytes &in, int w, int l)
{
    Bytes o;
    size_t bit = 0, n = in.size() * 8;
    auto get = [&](int k) { uint32_t v = 0; while (k--) { v = v << 1 | (in[bit / 8] >> (7 - bit % 8) & 1); bit++; } return v; };
    while (bit < n) {
        if (get(1)) {
            if (n - bit < 8) break;
            o.push_back(get(8));
        } else {
            if ((int64_t)(n - bit) < w + l) break;
            int64_t dist = get(w) + 1, len = get(l) + 1;
            for (int64_t i = 0; i < len; i++) o.push_back(dist > (int64_t)o.size() ? 0 : o[o.size() - dist]);
        }
    }
    return o;
}
static std::string setting(int ib, int w, int l) { return strf("input buffer %d window %d lookahead %d", ib, w, l); }

// One sink of up to k bytes from an exactly sized buffer.
static size_t do_sink(Ctx &c, heatshrink_decoder *d, const Bytes &in, size_t pos, size_t k, const std::string &what)
{
    size_t n = std::min(k, in.size() - pos), took = 777;
    uint8_t *b = (uint8_t *)malloc(n ? n : 1);
    if (n) memcpy(b, in.data() + pos, n);
    int r = heatshrink_decoder_sink(d, n ? b : b, n, &took);
    if (n && memcmp(b, in.data() + pos, n)) c.fail(what + ": sink changed its input");
    free(b);
    if (r < 0 || took > n || (r == HSDR_SINK_FULL && took)) c.fail(what + strf(": sink of %zu bytes gives %d, %zu taken", n, r, took));
    return took;
}
static HSD_poll_res do_poll(Ctx &c, heatshrink_decoder *d, size_t k, const Bytes &exp, size_t &out, const std::string &what)
{
    uint8_t *b = (uint8_t *)malloc(k ? k : 1);
    memset(b, 0x3c, k ? k : 1);
    size_t got = 777;
    HSD_poll_res r = heatshrink_decoder_poll(d, b, k, &got);
    if (r < 0 || got > k) c.fail(what + strf(": poll for %zu bytes gives %d, %zu bytes", k, r, got));
    if (got > exp.size() - out || (got && memcmp(b, exp.data() + out, got)))
        c.fail(what + strf(": poll at output offset %zu gives %s, expected %s", out, hex(Bytes(b, b + got), 64).c_str(), hex(Bytes(exp.begin() + out, exp.begin() + std::min(exp.size(), out + got)), 64).c_str()));
    free(b);
    if (r == HSDR_POLL_MORE && got < k) c.fail(what + ": poll says more although its buffer is not full");
    out += got;
    return r;
}
// A run with fixed granularities; also used to complete a state.
static void complete(Ctx &c, heatshrink_decoder *d, const Bytes &in, const Bytes &exp, size_t ip, size_t op, size_t sk, size_t pk, const std::string &what)
{
    int idle = 0;
    while (true) {
        size_t took = ip < in.size() ? do_sink(c, d, in, ip, sk, what) : 0;
        ip += took;
        HSD_poll_res r;
        size_t before = op;
        do r = do_poll(c, d, pk, exp, op, what); while (r == HSDR_POLL_MORE);
        HSD_finish_res f = heatshrink_decoder_finish(d);
        if (f < 0) c.fail(what + strf(": finish gives %d", f));
        c.count(2, 2);
        if (ip == in.size()) {
            if (op != exp.size()) c.fail(what + strf(": all input sunk and nothing more to fetch, but only %zu of %zu bytes came out", op, exp.size()));
            if (f != HSDR_FINISH_DONE) c.fail(what + ": all input consumed and output fetched, but finish does not say done");
            return;
        }
        if (took || op != before) idle = 0;
        else if (++idle > 2) c.fail(what + strf(": no progress at input offset %zu", ip));
    }
}
static void uniform_runs(Ctx &c, int ib, int w, int l, const Bytes &in, const std::vector<size_t> &ks)
{
    Bytes exp = decode(in, w, l);
    Dec d(ib, w, l);
    if (!d.d) c.fail(setting(ib, w, l) + ": not accepted");
    for (size_t sk : ks)
        for (size_t pk : ks) {
            std::string what = setting(ib, w, l) + strf(", stream %s, sink %zu, poll %zu", hex(in, 60).c_str(), sk, pk);
            complete(c, d.d, in, exp, 0, 0, sk, pk, what);
            heatshrink_decoder_reset(d.d);
            c.count(0);
        }
    c.tick();
    c.distinct_add(fnv(in, (ib * 256 + w) * 256 + l));
}
// All orders of sinks and polls, up to equal decoder states.
static void search(Ctx &c, int ib, int w, int l, const Bytes &in)
{
    Bytes exp = decode(in, w, l);
    struct St { Bytes mem; size_t ip, op; };
    std::vector<St> q;
    std::unordered_set<uint64_t> seen;
    Dec d(ib, w, l);
    if (!d.d) c.fail(setting(ib, w, l) + ": not accepted");
    std::string what = setting(ib, w, l) + ", stream " + hex(in, 60) + ", some order of sinks and polls";
    auto arrive = [&](size_t ip, size_t op) {
        Bytes m((uint8_t *)d.d, (uint8_t *)d.d + d.size);
        if (seen.insert(fnv(m, ip * 1000003 + op)).second) { q.push_back({m, ip, op}); c.count(1); }
        c.count(2);
    };
    arrive(0, 0);
    for (size_t i = 0; i < q.size(); i++) {
        size_t ip = q[i].ip, op = q[i].op;
        auto load = [&]() { memcpy(d.d, q[i].mem.data(), d.size); };
        // finish: never done while output is left
        load();
        HSD_finish_res f = heatshrink_decoder_finish(d.d);
        bool more = false;
        { size_t o = op; HSD_poll_res r = do_poll(c, d.d, 4096, exp, o, what); more = o != op; (void)r; }
        if (f < 0 || (f == HSDR_FINISH_DONE && more)) c.fail(what + strf(": finish gives %d with output left, input offset %zu, output offset %zu", f, ip, op));
        for (size_t k : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, in.size()}) {
            if (k > in.size() - ip && k != in.size()) continue;
            load();
            size_t t = do_sink(c, d.d, in, ip, k, what);
            arrive(ip + t, op);
        }
        for (size_t k : {0, 1, 2, 3, 64}) {
            load();
            size_t o = op;
            do_poll(c, d.d, k, exp, o, what);
            arrive(ip, o);
        }
        // from everywhere the stream can be completed
        if (i % 8 == 0 || ip == in.size()) {
            load();
            complete(c, d.d, in, exp, ip, op, 1 + i % 3, 1 + i % 5, what);
            c.count(3);
        }
    }
    c.tick();
    c.count(0);
    c.distinct_add(fnv(in, (ib * 256 + w) * 256 + l));
    if (in.size() > 3) c.sample(what + strf(": %zu states", q.size()));
}
struct Tok { bool lit; int v, len; };
static Bytes stream(const std::vector<Tok> &t, int w, int l)
{
    BitW b;
    for (auto &x : t) if (x.lit) b.lit(x.v); else b.ref(w, l, x.v, x.len);
    return b.o;
}
static std::vector<Tok> alphabet(int w, int l)
{
    std::vector<Tok> a = {{true, 0, 0}, {true, 0xff, 0}, {true, 0x41, 0}};
    for (int d : {1, 2, 3, (1 << w) - 1, 1 << w})
        for (int n : {1, 2, (1 << l) - 1, 1 << l}) a.push_back({false, d, n});
    return a;
}
template <class F> static void sequences(const std::vector<Tok> &a, int depth, std::vector<Tok> &s, F f)
{
    f(s);
    if (depth == 0) return;
    for (auto &t : a) { s.push_back(t); sequences(a, depth - 1, s, f); s.pop_back(); }
}
static void settings(Ctx &c, int ib, int w, int l)
{
    auto a = alphabet(w, l);
    std::vector<size_t> ks = {1, 2, 3, 7, 4096};
    std::string name = setting(ib, w, l);
    // token sequences
    for (size_t first = 0; first < a.size(); first++) {
        if (!c.next()) continue;
        c.desc(name + strf(", token sequences, first token %zu", first));
        std::vector<Tok> s = {a[first]};
        int depth = w <= 8 ? (c.thorough ? 3 : 2) : c.thorough || (w == 9 && l < 5) ? 2 : 1;
        int n = 0;
        sequences(a, depth, s, [&](std::vector<Tok> &t) {
            Bytes in = stream(t, w, l);
            if (w > 8 || (n % (c.thorough ? 1 : 4) == 0)) uniform_runs(c, ib, w, l, in, w > 11 ? std::vector<size_t>{1, 3, 70000} : ks);
            if (w <= (c.thorough ? 8 : 6) && (t.size() <= 2 || c.thorough)) search(c, ib, w, l, in);
            n++;
        });
    }
    // every byte string
    for (int b0 = 0; b0 < 256; b0 += 16) {
        if (!c.next()) continue;
        c.desc(name + strf(", all strings starting %02x..", b0));
        for (int x = b0; x < b0 + 16; x++) {
            uniform_runs(c, ib, w, l, {(uint8_t)x}, {1, 4096});
            if (w <= 8 || c.thorough)
                for (int y = 0; y < 256; y += (w > 5 && !c.thorough) ? 5 : 1) {
                    uniform_runs(c, ib, w, l, {(uint8_t)x, (uint8_t)y}, {1, 4096});
                    if (c.thorough && w <= 5) for (int z = 0; z < 256; z++) uniform_runs(c, ib, w, l, {(uint8_t)x, (uint8_t)y, (uint8_t)z}, {1, 4096});
                }
        }
    }
    // the window wraps, also the 16-bit position
    for (int pre : {(1 << w) - 2, (1 << w) - 1, 1 << w, (1 << w) + 1, 65534, 65535, 65536, 65537, 65536 + (1 << w)}) {
        if (!c.thorough && w > 8 && pre != 1 << w && pre != 65536) continue;
        if (!c.thorough && pre > 60000 && ib < 5) continue;
        if (!c.next()) continue;
        c.desc(name + strf(", %d bytes before", pre));
        std::vector<Tok> s;
        int have = 0;
        uint32_t x = pre;
        while (have < pre) {
            x = x * 1664525u + 1013904223u;
            int left = pre - have, n = std::min<int>(left, (1 << l) - (x >> 28));
            if (have < 20 || x >> 31 || n < 1) { s.push_back({true, (int)(x >> 20 & 255), 0}); have++; }
            else { s.push_back({false, 1 + (int)(x >> 8) % std::min(have, 1 << w), n}); have += n; }
        }
        for (auto &t : a) {
            auto s2 = s;
            s2.push_back(t);
            s2.push_back({true, 0x5a, 0});
            s2.push_back({false, 1 << w, 1 << l});
            uniform_runs(c, ib, w, l, stream(s2, w, l), pre > 2000 ? std::vector<size_t>{200} : std::vector<size_t>{1, 70000});
        }
    }
}
// A patch with this setting, through the library.
static int apply(int w, int l, int header, Bytes &out)
{
    Bytes from = {1, 2, 3, 4}, payload = recs_payload({{{1, 2, 3}, {9, 9, 9, 9, 9, 9}, 0}});
    Bytes p = seq_header(C_HS, 9);
    Bytes z = enc_hs(payload, w, l, 2, 1 << l);
    z[0] = header;
    put(p, z);
    SeqEnv e;
    e.from = &from;
    e.patch = &p;
    e.out_limit = 100;
    Res r = seq_process(e, {});
    out = e.out;
    return r.res;
}
static void enumerate(Ctx &c)
{
#if HEATSHRINK_DYNAMIC_ALLOC
    if (c.next()) {
        c.desc("all settings");
        for (int ib : {0, 1, 2, 255, 256, 65535})
            for (int w = 0; w < 256; w++)
                for (int l = 0; l < 256; l++) {
                    heatshrink_decoder *d = heatshrink_decoder_alloc(ib, w, l);
                    bool ok = ib > 0 && w >= 4 && w <= 15 && l >= 3 && l < w;
                    if ((d != NULL) != ok) c.fail(setting(ib, w, l) + (d ? ": accepted" : ": refused"));
                    if (d) heatshrink_decoder_free(d);
                    c.count(0);
                    c.tick();
                }
    }
#endif
    if (c.next()) {
        c.desc("settings in a patch");
        for (int h = 0; h < 256; h++) {
            int w = (h >> 4) + 4, l = (h & 15) + 3;
            bool ok = w <= 15 && l < w;
#if !HEATSHRINK_DYNAMIC_ALLOC
            ok = w == 8 && l == 7;
#endif
            Bytes out;
            int r = apply(std::min(w, 15), std::min(l, 14), h, out);
            c.count(0);
            if (ok ? r != 9 || out != Bytes{2, 4, 6, 9, 9, 9, 9, 9, 9} : r >= 0 || !out.empty())
                c.fail(strf("patch with window %d lookahead %d: result %d, %zu bytes written", w, l, r, out.size()));
        }
    }
    if (c.next()) {
        c.desc("NULL arguments");
        Dec d(16, 8, 7);
        uint8_t b[4] = {0};
        size_t n;
        if (heatshrink_decoder_sink(NULL, b, 1, &n) >= 0 || heatshrink_decoder_sink(d.d, NULL, 1, &n) >= 0 || heatshrink_decoder_sink(d.d, b, 1, NULL) >= 0 ||
            heatshrink_decoder_poll(NULL, b, 1, &n) >= 0 || heatshrink_decoder_poll(d.d, NULL, 1, &n) >= 0 || heatshrink_decoder_poll(d.d, b, 1, NULL) >= 0 || heatshrink_decoder_finish(NULL) >= 0)
            c.fail("a NULL argument is accepted");
    }
#if HEATSHRINK_DYNAMIC_ALLOC
    for (int w = 4; w <= 15; w++)
        for (int l = 3; l < w; l++)
            for (int ib : {1, 2, 5, 256}) {
                if (!c.thorough && w > 7 && ib != 1 + (w + l) % 2 && !(ib == 256 && l == w - 1)) continue;
                if (!c.thorough && w > 8 && l > 4 && l < w - 2) continue;
                settings(c, ib, w, l);
            }
#else
    settings(c, 256, 8, 7);
    auto a = alphabet(8, 7);
    for (size_t first = 0; first < a.size(); first++) {
        if (!c.next()) continue;
        c.desc(strf("static decoder, all orders, first token %zu", first));
        std::vector<Tok> s = {a[first]};
        sequences(a, c.thorough ? 2 : 1, s, [&](std::vector<Tok> &t) { search(c, 256, 8, 7, stream(t, 8, 7)); });
    }
#endif
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
