// C09: an in-place update leaves exactly the to-data in memory, for every geometry.
#include "geos.hpp"

static void check(Ctx &c, const Geo &g, int style, Repr r, int kind)
{
    Bytes mem, to;
    contents(g, kind, mem, to);
    Bytes p = inp_patch(mem, g, to, style, r);
    std::string what = gname(g, style, r) + strf(" contents %d", kind);
    uint64_t h = fnv(p, fnv(mem));
    if (g.to) c.distinct_add(h);
    for (int steps = 0; steps < 4; steps += (kind == 0 ? 1 : 3))
        for (int api = 0; api < 3; api++) {
            InpEnv e;
            e.mem = mem;
            e.erased.assign(mem.size(), 0);
            e.strict = false;
            e.patch = &p;
            e.use_set = steps & 1;
            e.use_get = steps & 2;
            int res = api == 0 ? inp_callbacks(e) : api == 1 ? inp_process(e, {}) : inp_process(e, uniform(p.size(), 1));
            c.count(0);
            Bytes got(e.mem.begin(), e.mem.begin() + g.to);
            if (res != (int)g.to || got != to || !e.oob.empty() || e.badstep || e.step != 0)
                c.fail(what + strf(": steps %d api %d: result %d (%s) step %d %s\nmemory   %s\nexpected %s\npatch %s", steps, api, res,
                                   res < 0 ? detools_error_as_string(res) : "-", e.step, e.oob.c_str(), hex(got, 150).c_str(),
                                   hex(to, 150).c_str(), hex(p).c_str()));
        }
    if (g.to > 3 && g.shift > 0 && style == 2) c.sample(what + " patch " + hex(p, 80));
}
static void enumerate(Ctx &c)
{
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_HS, 0}};
    std::vector<std::pair<int, int>> small = {{1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 8}, {2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5},
                                              {3, 1}, {3, 2}, {3, 3}, {3, 4}, {4, 2}, {4, 3}, {4, 4}, {5, 3}, {8, 2}};
    if (c.thorough) for (auto x : std::vector<std::pair<int, int>>{{1, 12}, {2, 8}, {3, 6}, {4, 6}, {5, 5}, {6, 4}, {7, 4}, {8, 4}, {16, 2}}) small.push_back(x);
    for (auto s : small)
        geos(s.first, s.second, true, [&](Geo g) {
            if (!c.next()) return;
            c.desc(gname(g, -1, {0, 0}));
            for (int style = 0; style < 5; style++)
                for (Repr r : rs)
                    for (int kind = 0; kind < 3; kind++) check(c, g, style, r, kind);
        });
    std::vector<std::pair<int, int>> large = {{63, 3}, {64, 4}, {127, 3}, {128, 3}, {129, 3}, {130, 2}, {255, 3}, {256, 3}, {257, 2}, {300, 3}, {1024, 2}};
    if (c.thorough) for (auto x : std::vector<std::pair<int, int>>{{127, 5}, {128, 5}, {129, 5}, {256, 5}, {384, 4}, {512, 4}, {4096, 3}}) large.push_back(x);
    for (auto s : large)
        geos(s.first, s.second, false, [&](Geo g) {
            if (!c.next()) return;
            c.desc(gname(g, -1, {0, 0}));
            for (int style = 0; style < 5; style++)
                for (int ri = 0; ri < 4; ri++) {
                    if (ri == 3 && style != 1) continue;
                    for (int kind = 0; kind < 2; kind++)
                        check(c, g, style, ri == 3 ? Repr{C_LZMA, 0} : rs[ri], kind);
                }
        });
    for (Geo g : far_geos())
        for (int style = 0; style < 5; style++) {
            if ((g.mem > 1000000 || g.seg < 50) && style == 2 && g.mem != 1200) continue;
            for (int ri = 0; ri < 4; ri++) {
                if (!c.next()) continue;
                c.desc(gname(g, style, {0, 0}));
                if (g.mem > 1000000 && ri == 2) continue;
                check(c, g, style, ri == 3 ? Repr{C_LZMA, 0} : rs[ri], 1);
            }
        }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
