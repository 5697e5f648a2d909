// C10: an interrupted in-place update can always be resumed to completion (-DRULES: C11).
// Graph search over persistent states (memory image, stored step): from every state a session
// is started and stopped at every write, erase and step store, before, half way in several
// torn ways, or after it, and at every prefix of the patch; an undisturbed session from every
// state must complete.
#include "geos.hpp"
#ifdef RULES
#define RULECHECK 1
#else
#define RULECHECK 0
#endif

struct P { Bytes mem, erased; int step; int parent; int64_t at; int variant; };

static std::vector<std::pair<int, int>> shapes(bool thorough)
{
    std::vector<std::pair<int, int>> v = {{1, 1}, {1, 2}, {1, 3}, {1, 4}, {2, 2}, {2, 3}, {3, 2}, {4, 2}, {4, 3}};
    if (thorough) for (auto x : std::vector<std::pair<int, int>>{{1, 6}, {2, 4}, {2, 5}, {3, 4}, {4, 4}, {8, 3}}) v.push_back(x);
    return v;
}
static void explore(Ctx &c, const Geo &g, int style, Repr r, int kind, int api)
{
    Bytes mem, to;
    contents(g, kind, mem, to);
    Bytes patch = inp_patch(mem, g, to, style, r);
    std::string name = gname(g, style, r) + strf(" contents %d api %d", kind, api);
    std::vector<P> q;
    std::unordered_set<uint64_t> seen;
    auto key = [&](const Bytes &m, const Bytes &er, int step) {
        uint64_t h = fnv(m, 1469598103934665603ull + step);
        return RULECHECK ? fnv(er, h) : h;
    };
    auto history = [&](int i) {
        std::string s;
        for (; q[i].parent >= 0; i = q[i].parent)
            s = (q[i].variant < 0 ? strf(" [patch cut after %lld bytes]", (long long)q[i].at)
                                  : strf(" [stopped at change %lld variant %d, step %d]", (long long)q[i].at, q[i].variant, q[i].step)) + s;
        return s.empty() ? std::string(" [first run]") : s;
    };
    auto env = [&](InpEnv &e, const P &p) {
        e.mem = p.mem;
        e.erased = p.erased;
        e.step = p.step;
        e.seg = g.seg;
        e.patch = &patch;
    };
    auto session = [&](InpEnv &e) { return api == 0 ? inp_process(e, {}) : api == 1 ? inp_process(e, uniform(patch.size(), 1)) : inp_callbacks(e); };
    q.push_back({mem, Bytes(mem.size(), 0), 0, -1, 0, 0});
    seen.insert(key(mem, q[0].erased, 0));
    bool done_final = false;
    for (size_t qi = 0; qi < q.size(); qi++) {
        P p = q[qi];
        c.count(1);
        c.tick();
        InpEnv e;
        env(e, p);
        int res = session(e);
        c.count(3);
        auto judge = [&](InpEnv &e, int res, const std::string &h) {
            if (RULECHECK) { if (!e.rule.empty()) c.fail(name + h + ": " + e.rule + "\npatch " + hex(patch)); }
            Bytes got(e.mem.begin(), e.mem.begin() + g.to);
            if (res != (int)g.to || got != to || e.step != 0 || !e.oob.empty())
                c.fail(name + h + strf(": run to the end gives result %d (%s), step %d %s\nmemory   %s\nexpected %s\npatch %s", res,
                                       res < 0 ? detools_error_as_string(res) : "-", e.step, e.oob.c_str(), hex(got, 100).c_str(),
                                       hex(to, 100).c_str(), hex(patch).c_str()));
        };
        judge(e, res, history(qi));
        int64_t n = e.muts;
        auto arrive = [&](InpEnv &e, int64_t at, int variant) {
            c.count(2);
            if (RULECHECK && !e.rule.empty()) c.fail(name + history(qi) + ", then stopped: " + e.rule + "\npatch " + hex(patch));
            if (!e.oob.empty()) c.fail(name + history(qi) + ": " + e.oob);
            if (seen.insert(key(e.mem, e.erased, e.step)).second) q.push_back({e.mem, e.erased, e.step, (int)qi, at, variant});
        };
        for (int64_t i = 0; i < n; i++)
            for (int v = 0; v < 5; v++) {
                InpEnv s;
                env(s, p);
                s.crash_at = i;
                s.variant = v;
                session(s);
                if (!s.crashed) c.fail(name + history(qi) + ": run is not deterministic");
                if (i == n - 1 && v == 3 && s.step == 0) {
                    // the very last store was carried out: the update is complete
                    Bytes got(s.mem.begin(), s.mem.begin() + g.to);
                    if (got != to) c.fail(name + history(qi) + ": completion stored but the memory is wrong");
                    done_final = true;
                    continue;
                }
                arrive(s, i, v);
            }
        // the patch stops coming
        if (api == 0)
            for (size_t k = 0; k < patch.size(); k++) {
                Bytes cut(patch.begin(), patch.begin() + k);
                InpEnv s;
                env(s, p);
                s.patch = &cut;
                auto *o = (detools_apply_patch_in_place_t *)malloc(sizeof(detools_apply_patch_in_place_t));
                memset(o, 0xa5, sizeof *o);
                detools_apply_patch_in_place_init(o, env_mem_read, env_mem_write, env_mem_erase, env_step_set, env_step_get, patch.size(), &s);
                if (k) detools_apply_patch_in_place_process(o, cut.data(), k);
                int f = detools_apply_patch_in_place_finalize(o);
                free(o);
                if (f >= 0) {
                    Bytes got(s.mem.begin(), s.mem.begin() + g.to);
                    if (got == to && s.step == 0) { c.count(4); continue; }   // complete although bytes are missing (end markers)
                    c.fail(name + history(qi) + strf(": success with only %zu of %zu patch bytes", k, patch.size()));
                }
                if (n && s.muts == n && s.step == 0) { c.count(4); continue; }   // everything carried out, end marker missing
                arrive(s, k, -1);
            }
    }
    if (g.to && !done_final) c.fail(name + ": the update never stores its completion");
    if (q.size() > 1) c.distinct_add(fnv(patch, fnv(mem)));
    if (g.to && style == 1) c.sample(name + strf(": %zu persistent states", q.size()));
}
// Far geometries: one run is stopped at the changes near the first, the last and those where the
// step reaches a power of two, then again soon after it was resumed, and then runs to the end.
static void far(Ctx &c, const Geo &g, int style, Repr r, int api, bool thorough)
{
    Bytes mem, to;
    contents(g, 1, mem, to);
    Bytes patch = inp_patch(mem, g, to, style, r);
    std::string name = gname(g, style, r) + strf(" api %d", api);
    auto session = [&](InpEnv &e) { e.seg = g.seg; e.patch = &patch; return api == 1 ? inp_process(e, uniform(patch.size(), 100)) : inp_callbacks(e); };
    auto judge = [&](InpEnv &e, int res, const std::string &h) {
        if (RULECHECK && !e.rule.empty()) c.fail(name + h + ": " + e.rule);
        if (res != (int)g.to || memcmp(e.mem.data(), to.data(), g.to) || e.step != 0 || !e.oob.empty())
            c.fail(name + h + strf(": run to the end gives result %d (%s), step %d %s, to-data %s", res, res < 0 ? detools_error_as_string(res) : "-",
                                   e.step, e.oob.c_str(), memcmp(e.mem.data(), to.data(), g.to) ? "wrong" : "right"));
    };
    auto fresh = [&](InpEnv &e, const InpEnv *from) {
        e.mem = from ? from->mem : mem;
        e.erased = from ? from->erased : Bytes(mem.size(), 0);
        e.step = from ? from->step : 0;
    };
    std::vector<Op> tr;
    InpEnv e0;
    fresh(e0, 0);
    e0.trace = &tr;
    judge(e0, session(e0), "");
    std::set<int64_t> at;
    int64_t n = 0;
    for (auto &o : tr) {
        if (!strchr("weS", o.kind)) continue;
        if (o.kind == 'S')
            for (int k = 3; k < 20; k++)
                if ((int64_t)o.addr - (1 << k) >= -1 && (int64_t)o.addr - (1 << k) <= (thorough ? 2 : 1)) for (int d = -3; d <= (thorough ? 4 : 2); d++) at.insert(n + d);
        n++;
    }
    for (int64_t k = 0; k < 8; k++) { at.insert(k); at.insert(n - 1 - k); }
    if (n < 300 || (thorough && n < 3000)) for (int64_t k = 0; k < n; k++) at.insert(k);
    for (int64_t i : at) {
        if (i < 0 || i >= n) continue;
        for (int v = 0; v < 5; v++) {
            if (n > 20000 && !thorough && v != 1 && v != 3) continue;
            InpEnv s;
            fresh(s, 0);
            s.crash_at = i;
            s.variant = v;
            session(s);
            c.count(2);
            c.tick();
            std::string h = strf(" [stopped at change %lld variant %d, step %d]", (long long)i, v, s.step);
            if (!s.crashed) c.fail(name + h + ": run is not deterministic");
            if (i == n - 1 && v == 3 && s.step == 0) { judge(s, (int)g.to, h); continue; }
            InpEnv t;
            fresh(t, &s);
            judge(t, session(t), h);
            c.count(3);
            c.count(1);
            if (n > 20000 || v == 4) continue;
            for (int64_t j = 0; j < t.muts && j < (thorough ? 9 : 4); j++) {
                InpEnv u;
                fresh(u, &s);
                u.crash_at = j;
                u.variant = j % 2 ? 1 : 3;
                session(u);
                c.count(2);
                std::string h2 = h + strf(" [stopped again at change %lld variant %d, step %d]", (long long)j, u.variant, u.step);
                if (j == t.muts - 1 && u.variant == 3 && u.step == 0) continue;
                InpEnv w;
                fresh(w, &u);
                judge(w, session(w), h2);
                c.count(3);
                c.count(1);
            }
        }
    }
    c.distinct_add(fnv(patch, fnv(mem)));
    c.sample(name + strf(": %lld changes, stopped at %zu of them", (long long)n, at.size()));
}
static void enumerate(Ctx &c)
{
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_HS, 0}};
    for (auto s : shapes(c.thorough))
        geos(s.first, s.second, true, [&](Geo g) {
            for (int style = 0; style < 5; style++) {
                if (!c.next()) continue;
                c.desc(gname(g, style, {0, 0}));
                explore(c, g, style, {C_NONE, 0}, 0, 0);
                explore(c, g, style, {C_NONE, 0}, 1, 2);
                if (style == 1 || c.thorough) explore(c, g, style, {C_CRLE, -3}, 0, 1);
                if (style == 2 || c.thorough) explore(c, g, style, {C_HS, 0}, 0, 0);
                if (style == 1 && (g.mem == 8 || c.thorough)) explore(c, g, style, {C_LZMA, 0}, 0, 2);
            }
        });
    std::vector<std::pair<int, int>> large = {{127, 2}, {128, 2}, {130, 3}};
    if (c.thorough) for (auto x : std::vector<std::pair<int, int>>{{129, 4}, {256, 3}, {257, 3}, {300, 4}}) large.push_back(x);
    for (auto s : large)
        geos(s.first, s.second, false, [&](Geo g) {
            for (int style = 1; style < (c.thorough ? 5 : 4); style += c.thorough ? 1 : 2) {
                if (!c.next()) continue;
                c.desc(gname(g, style, {0, 0}));
                explore(c, g, style, rs[style == 1 ? 1 : style == 3 ? 0 : c.thorough ? 2 : 0], 1, style == 3 ? 0 : 2);
            }
        });
    for (Geo g : far_geos())
        for (int style : {1, 3}) {
            if (style == 3 && !c.thorough && g.seg < 4096) continue;
            if (g.mem > 1000000 && !c.thorough && style == 3) continue;
            if (!c.next()) continue;
            c.desc(gname(g, style, {0, 0}));
            far(c, g, style, rs[style == 1 ? 0 : 1], style == 1 ? 2 : 1, c.thorough);
        }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
