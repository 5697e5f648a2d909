// C15: build configurations only remove what they disable.
// One worker program per configuration (c15w.c with the library) runs a common corpus; its
// records are compared with those of the full build and with the reference decoder.
#include "env.hpp"
#include "inpmodel.hpp"
#include <sys/wait.h>
#include <map>

struct Entry { std::string name; bool inp; Bytes from, patch, out; int comp; int verdict; bool files; };
struct Rec1 { int32_t res; uint32_t nout; uint64_t out, trace; uint32_t muts, api; };
static Bytes mk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}
static std::vector<Entry> corpus(bool thorough)
{
    std::vector<Entry> v;
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_CRLE, 1}, {C_HS, 0}, {C_HS, 1}, {C_LZMA, 0}};
    for (Repr r : rs) {
        std::vector<std::pair<Bytes, std::vector<Rec>>> base;
        base.push_back({mk(12, 1), {{mk(3, 2), mk(2, 3), 1}, {{}, {}, -2}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}}});
        base.push_back({mk(4, 1), {}});
        base.push_back({mk(1, 1), {{{}, mk(1, 2), 0}}});
        base.push_back({mk(3, 1), {{mk(3, 1), mk(2, 2), -1}}});
        for (size_t n : {127, 128, 129, 300, 1500}) base.push_back({mk(n, 1, 1), {{mk(n, 2, 1), mk(30, 3, 0), -(int64_t)n}, {mk(n / 2, 2, 1), {}, 0}}});
        base.push_back({mk(600, 1, 1), {{mk(260, 2, 1), mk(330, 3, 0), -260}, {{}, {}, 0}, {mk(200, 4), mk(1, 9), 64}}});
        for (auto &b : base) {
            Bytes out, p = seq_patch(b.second, r);
            recs_apply(b.first, b.second, out);
            std::string n = strf("sequential %zu bytes %s/%d", out.size(), cname(r.comp), r.mode);
            v.push_back({n, false, b.first, p, out, r.comp, 1, true});
            size_t st = p.size() > 80 && !thorough ? p.size() / 20 : 1;
            for (size_t k = 0; k < p.size(); k += st) {
                v.push_back({n + strf(" cut to %zu", k), false, b.first, Bytes(p.begin(), p.begin() + k), {}, r.comp, 2, false});
                for (int x : {1, 2, 4, 0x10, 0x40, 0x80}) {
                    Bytes t = p;
                    t[k] ^= x;
                    v.push_back({n + strf(" byte %zu xor %02x", k, x), false, b.first, t, {}, t[0] & 15, 2, false});
                }
            }
        }
        struct IB { Geo g; int style; };
        for (auto &b : std::vector<IB>{{{12, 4, 4, 7, 9}, 2}, {{8, 4, 4, 4, 0}, 0}, {{10, 5, 0, 10, 10}, 4}, {{900, 300, 300, 520, 580}, 1}, {{512, 256, 256, 200, 256}, 1}}) {
            Bytes from = mk(b.g.mem, 5, b.g.mem > 100), out = mk(b.g.to, 6, b.g.mem > 100);
            Bytes p = inp_patch(from, b.g, out, b.style, r);
            std::string n = strf("in-place mem %d to %d %s/%d", (int)b.g.mem, (int)b.g.to, cname(r.comp), r.mode);
            v.push_back({n, true, from, p, out, r.comp, 1, true});
            size_t st = p.size() > 80 && !thorough ? p.size() / 20 : 1;
            for (size_t k = 0; k < p.size(); k += st) {
                v.push_back({n + strf(" cut to %zu", k), true, from, Bytes(p.begin(), p.begin() + k), {}, r.comp, 2, false});
                for (int x : {1, 2, 4, 0x10, 0x40, 0x80}) {
                    Bytes t = p;
                    t[k] ^= x;
                    v.push_back({n + strf(" byte %zu xor %02x", k, x), true, from, t, {}, t[0] & 15, 2, false});
                }
            }
        }
    }
    // every type and compression value
    for (int h = 0; h < 128; h++)
        for (auto b : {Bytes{(uint8_t)h}, Bytes{(uint8_t)h, 1}, Bytes{(uint8_t)h, 1, 0, 0, 1, 7, 0}, Bytes{(uint8_t)h, 8, 4, 4, 4, 2, 0, 0, 2, 7, 7, 0}})
            v.push_back({"header " + hex(b), (h >> 4) == 1, mk(8, 1), b, {}, h & 15, 2, false});
    return v;
}
static std::string WDIR, TMP;
static std::map<int, std::vector<Rec1>> CACHE;
static std::vector<Rec1> run_worker(Ctx &c, int cfg, const std::string &corp)
{
    std::string w = WDIR + strf("/w%02d", cfg), o = TMP + strf("/r%d.%d", cfg, (int)getpid());
    pid_t p = fork();
    if (p == 0) { alarm(120); execl(w.c_str(), w.c_str(), corp.c_str(), o.c_str(), (char *)0); _exit(126); }
    int st;
    waitpid(p, &st, 0);
    c.tick();
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail(strf("configuration %d: worker ended with wait status %d", cfg, st));
    std::vector<Rec1> v;
    FILE *f = fopen(o.c_str(), "rb");
    Rec1 r;
    while (f && fread(&r, sizeof r, 1, f) == 1) v.push_back(r);
    if (f) fclose(f);
    unlink(o.c_str());
    return v;
}
// configuration bits: 0 none, 1 lzma, 2 crle, 3 heatshrink, 4 file io, 5 dynamic heatshrink
static std::string cfgname(int k)
{
    return strf("none=%d lzma=%d crle=%d heatshrink=%d file_io=%d dynamic=%d", k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3 & 1, k >> 4 & 1, k >> 5 & 1);
}
static void enumerate(Ctx &c)
{
    auto v = corpus(c.thorough);
    std::string corp = TMP + strf("/corpus.%d", (int)getpid());
    FILE *f = fopen(corp.c_str(), "wb");
    for (auto &e : v) {
        uint32_t t = (e.inp ? 1 : 0) | (e.files ? 2 : 0), a = e.from.size(), b = e.patch.size();
        fwrite(&t, 4, 1, f);
        fwrite(&a, 4, 1, f);
        fwrite(e.from.data(), 1, a, f);
        fwrite(&b, 4, 1, f);
        fwrite(e.patch.data(), 1, b, f);
    }
    fclose(f);
    for (int cfg = 0; cfg < 64; cfg++) {
        if (!c.next()) continue;
        std::string name = cfgname(cfg);
        c.desc(name);
        int full = 31 | (cfg & 32);
        if (!CACHE.count(full)) CACHE[full] = run_worker(c, full, corp);
        auto &ref = CACHE[full];
        auto got = run_worker(c, cfg, corp);
        size_t i = 0, j = 0;
        bool fio = cfg & 16;
        for (auto &e : v) {
            bool on = e.comp == C_NONE ? cfg & 1 : e.comp == C_LZMA ? cfg & 2 : e.comp == C_CRLE ? cfg & 4 : e.comp == C_HS ? cfg & 8 : false;
            bool known = e.comp == C_NONE || e.comp == C_LZMA || e.comp == C_CRLE || e.comp == C_HS;
            do {
                if (i >= ref.size()) c.fail(name + ": the full build gave too few records");
                Rec1 r = ref[i++];
                std::string what = name + ", " + e.name + strf(", api %u, patch ", r.api) + hex(e.patch, 60);
                if (e.verdict == 1 && known && r.api < 16) {
                    bool hs_other = e.comp == C_HS && !(cfg & 32);
                    if (r.res != (int)e.out.size() && !(hs_other && r.res < 0)) c.fail(what + strf(": the full build gives %d", r.res));
                    if (r.res >= 0 && r.out != fnv(e.out.data(), e.out.size())) c.fail(what + ": the full build gives wrong data");
                }
                if (r.api == 9 && !fio) continue;
                if (j >= got.size()) c.fail(what + ": too few records");
                Rec1 g = got[j++];
                c.count(0);
                if (g.api != r.api) c.fail(what + ": records out of step");
                if (on || !known) {
                    if (g.res != r.res || g.nout != r.nout || g.out != r.out || g.trace != r.trace || g.muts != r.muts)
                        c.fail(what + strf(": result %d, %u bytes, %u changes; the full build gives %d, %u bytes, %u changes", g.res, g.nout, g.muts, r.res, r.nout, r.muts));
                    if (known && r.res > 0) c.distinct_add(fnv(e.patch, fnv(&g.api, 4, cfg)));
                } else {
                    // refused as soon as the header is known, nothing written; the header alone
                    // may be incomplete or wrong in ways found earlier
                    if (g.res >= 0) c.fail(what + strf(": result %d for a disabled compression", g.res));
                    if (g.muts) c.fail(what + strf(": %u changes made for a disabled compression", g.muts));
                    if (e.verdict == 1 && g.res != -DETOOLS_BAD_COMPRESSION && !(r.api >= 16 && r.api - 16 < 3))
                        c.fail(what + strf(": result %d (%s), expected the bad-compression error", g.res, detools_error_as_string(g.res)));
                    c.distinct_add(fnv(e.patch, fnv(&g.api, 4, cfg)));
                }
            } while (i < ref.size() && ref[i].api != 0);
        }
        if (j != got.size() || i != ref.size()) c.fail(name + ": too many records");
        if (cfg == 63 || cfg == 9) c.sample(name + strf(": %zu runs compared", got.size()));
    }
    unlink(corp.c_str());
}
int main(int argc, char **argv)
{
    for (int i = 1; i < argc - 1; i++) {
        if (!strcmp(argv[i], "--workers")) WDIR = argv[i + 1];
        if (!strcmp(argv[i], "--tmp")) TMP = argv[i + 1];
    }
    return runner_main(argc, argv, enumerate);
}
