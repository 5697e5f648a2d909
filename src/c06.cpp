// C06: a failing callback is always reported and stops the update.
// Every callback invocation of every scenario fails in turn, with every error value.
#include "env.hpp"
#include "inpmodel.hpp"

static union { struct detools_apply_patch_t s; struct detools_apply_patch_in_place_t p; } OBJ;

struct Scenario {
    std::string name;
    bool inp;
    Bytes patch, from, out;
    int steps;          // in-place: 0 no step callbacks, 1 both, 2 get only, 3 set only
    int step0;          // initially stored step
    int seg;
};
// Chunking: 0 callbacks API, 1 one chunk, 2 single bytes, 3 chunks of 7
static int drive(Ctx &c, const Scenario &sc, int api, SeqEnv &se, InpEnv &ie, bool keep_going, const std::string &what)
{
    size_t n = sc.patch.size();
    memset(&OBJ, 0xa5, sizeof OBJ);
    int r;
    if (api == 0) return sc.inp ? inp_callbacks(ie) : seq_callbacks(se).res;
    if (sc.inp)
        r = detools_apply_patch_in_place_init(&OBJ.p, env_mem_read, env_mem_write, env_mem_erase,
                                              ie.use_set ? env_step_set : NULL, ie.use_get ? env_step_get : NULL, n, &ie);
    else
        r = detools_apply_patch_init(&OBJ.s, env_from_read, env_from_seek, n, env_to_write, &se);
    size_t k = api == 1 ? n : api == 2 ? 1 : 7;
    bool err = r != 0;
    if (err) return r;
    for (size_t p = 0; p < n; p += k) {
        size_t m = std::min(k, n - p);
        int q = sc.inp ? detools_apply_patch_in_place_process(&OBJ.p, sc.patch.data() + p, m)
                       : detools_apply_patch_process(&OBJ.s, sc.patch.data() + p, m);
        if (q > 0) c.fail(what + strf(": process returned %d", q));
        if (err && q >= 0) c.fail(what + strf(": process returned %d after an earlier failure", q));
        if (q < 0 && !err) { err = true; r = q; }
        if (err && !keep_going) break;
    }
    if (err && keep_going) {
        // once more with some data that was already given
        int q = sc.inp ? detools_apply_patch_in_place_process(&OBJ.p, sc.patch.data(), 1)
                       : detools_apply_patch_process(&OBJ.s, sc.patch.data(), 1);
        if (q >= 0) c.fail(what + strf(": process returned %d after the failure", q));
    }
    int f = sc.inp ? detools_apply_patch_in_place_finalize(&OBJ.p) : detools_apply_patch_finalize(&OBJ.s);
    if (err && f >= 0) c.fail(what + strf(": finalize returned %d after process had failed with %d", f, r));
    return err ? r : f;
}
static void setup(const Scenario &sc, SeqEnv &se, InpEnv &ie)
{
    se.from = &sc.from;
    se.patch = ie.patch = &sc.patch;
    ie.mem = sc.from;
    ie.erased.assign(sc.from.size(), 0);
    ie.use_get = sc.steps == 1 || sc.steps == 2;
    ie.use_set = sc.steps == 1 || sc.steps == 3;
    ie.step = sc.step0;
    ie.seg = sc.seg;
}
static void explore(Ctx &c, const Scenario &sc, const std::vector<int> &all_values, int limit)
{
    for (int api = 0; api < 4; api++) {
        SeqEnv se0;
        InpEnv ie0;
        setup(sc, se0, ie0);
        std::string what = sc.name + strf(", api %d", api);
        int res = drive(c, sc, api, se0, ie0, false, what);
        bool resumed = sc.step0 != 0;
        if (res != (int)sc.out.size() || (!sc.inp && se0.out != sc.out) ||
            (sc.inp && !resumed && Bytes(ie0.mem.begin(), ie0.mem.begin() + sc.out.size()) != sc.out))
            c.fail(what + strf(": undisturbed run gave %d (%s)", res, res < 0 ? detools_error_as_string(res) : "-"));
        int64_t n = sc.inp ? ie0.calls : se0.calls;
        // Long scenarios: only the values that mean something inside the library.
        const std::vector<int> few = {-1, -DETOOLS_NOT_DONE, -DETOOLS_ALREADY_DONE, -DETOOLS_IO_FAILED};
        const std::vector<int> &values = n > limit ? few : all_values;
        for (int64_t i = 0; i < n; i++)
            for (int v : values)
                for (int go = 0; go < (api ? 2 : 1); go++) {
                    SeqEnv se;
                    InpEnv ie;
                    setup(sc, se, ie);
                    se.fail_at = ie.fail_at = i;
                    se.fail_value = ie.fail_value = v;
                    std::string w = what + strf(", callback invocation %lld returns %d%s", (long long)i, v, go ? ", going on" : "");
                    c.count(0);
                    c.tick();
                    int r = drive(c, sc, api, se, ie, go, w);
                    if (r >= 0) c.fail(w + strf(": result %d", r));
                    bool failed = sc.inp ? ie.failed : se.failed;
                    if (!failed) c.fail(w + ": the invocation did not happen (the run is not deterministic)");
                    if (se.writes_after_failure && !se.failed_patch) c.fail(w + strf(": %lld writes after the failure", (long long)se.writes_after_failure));
                    if (ie.muts_after_failure && !ie.failed_patch) c.fail(w + strf(": %lld writes, erases or steps after the failure", (long long)ie.muts_after_failure));
                    if (!sc.inp && (se.out.size() > sc.out.size() || !std::equal(se.out.begin(), se.out.end(), sc.out.begin())))
                        c.fail(w + ": what was written is not a prefix of the to-data");
                    int key[3] = {api, (int)i, v};
                    c.distinct_add(fnv(sc.name.data(), sc.name.size(), fnv(key, sizeof key)));
                }
        c.sample(what + strf(": %lld invocations x %zu values", (long long)n, values.size()));
    }
}
static Bytes mk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}
static void enumerate(Ctx &c)
{
    std::vector<int> values;
    for (int v = -1; v >= (c.thorough ? -60 : -32); v--) values.push_back(v);
    for (int v : {-100, -1000, -0x7fffffff - 1}) values.push_back(v);
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_CRLE, 2}, {C_HS, 0}, {C_HS, 2}, {C_LZMA, 0}};
    std::vector<Scenario> v;
    std::vector<std::pair<Bytes, std::vector<Rec>>> base;
    base.push_back({mk(12, 1), {{mk(3, 2), mk(2, 3), 1}, {{}, {}, -2}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}}});
    base.push_back({mk(400, 1, 1), {{mk(260, 2, 1), mk(130, 3, 1), -260}, {{}, {}, 0}, {mk(2, 4), mk(1, 9), 64}}});
    base.push_back({mk(4, 1), {{{}, mk(300, 7, 1), 3}}});
    base.push_back({mk(4, 1), {}});
    base.push_back({mk(1500, 1), {{mk(700, 2), {}, 0}, {mk(600, 2), mk(600, 4), -4}}});
    int bi = 0;
    for (auto &b : base) {
        for (Repr r : rs) {
            Scenario sc;
            sc.name = strf("sequential %d %s/%d", bi, cname(r.comp), r.mode);
            sc.inp = false;
            sc.patch = seq_patch(b.second, r);
            sc.from = b.first;
            if (!recs_apply(b.first, b.second, sc.out)) abort();
            v.push_back(sc);
        }
        bi++;
    }
    struct IB { Geo g; int style; };
    std::vector<IB> ib = {{{12, 4, 4, 7, 9}, 2}, {{16, 4, 8, 8, 6}, 1}, {{80, 40, 40, 38, 70}, 1}, {{8, 2, 2, 5, 8}, 3},
                          {{8, 4, 4, 4, 8}, 0}, {{8, 8, 0, 8, 4}, 0}, {{900, 300, 300, 520, 580}, 4}, {{600, 300, 0, 300, 330}, 1},
                          {{8, 4, 4, 4, 0}, 0}, {{16, 4, 4, 12, 16}, 2}};
    for (IB b : ib)
        for (Repr r : rs)
            for (int steps = 0; steps < 4; steps++) {
                Scenario sc;
                Bytes to = mk(b.g.to, 6, b.g.mem > 100);
                sc.inp = true;
                sc.from = mk(b.g.mem, 5, b.g.mem > 100);
                sc.patch = inp_patch(sc.from, b.g, to, b.style, r);
                sc.out = to;
                sc.steps = steps;
                sc.seg = 0;
                for (sc.step0 = 0; sc.step0 < (steps == 1 ? 4 : 1); sc.step0 += c.thorough ? 1 : 3) {
                    sc.name = strf("in-place mem %d seg %d shift %d from %d to %d %s/%d steps %d at %d", (int)b.g.mem, (int)b.g.seg,
                                   (int)b.g.shift, (int)b.g.from, (int)b.g.to, cname(r.comp), r.mode, steps, sc.step0);
                    v.push_back(sc);
                }
            }
    for (auto &sc : v) {
        if (!c.next()) continue;
        c.desc(sc.name + " patch " + hex(sc.patch, 300));
        explore(c, sc, values, c.thorough ? 1000 : 40);
    }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
