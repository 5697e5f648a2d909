// C13: the file API reports success only for a completely written result.
// -DRESUME: the part of C10 that runs interrupted in-place updates through the file API.
//
// fopen() gives streams on simulated files; every operation below the stdio layer (open, read,
// write, seek, close of the simulated file) and every stdio call is a fault point.  Write
// buffers are real, so failures that only show when a buffer is flushed or a file is closed
// happen as they do on a full disk.
#include "sim.hpp"

struct Scenario { std::string name; bool inp; Bytes patch, from, out; int verdict; };   // verdict: 1 valid, 0 invalid, 2 either (out counts)

static int call(const Scenario &sc, int bufmode, bool steps)
{
    S.bufmode = bufmode;
    S.ops = S.calls = 0;
    S.visible = false;
    S.kinds.clear();
    return sc.inp ? detools_apply_patch_in_place_filenames("sim:from", "sim:patch", steps ? f_step_set : NULL, steps ? f_step_get : NULL)
                  : detools_apply_patch_filenames("sim:from", "sim:patch", "sim:to");
}
static Bytes mk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}
static std::vector<Repr> RS = {{C_NONE, 0}, {C_CRLE, -3}, {C_HS, 0}, {C_LZMA, 0}};

#ifndef RESUME
struct Outcome { int res; int64_t ops, calls; };
static Outcome drive(Ctx &c, const Scenario &sc, int buf, bool steps, const std::string &what)
{
    S.files.clear();
    S.files["sim:from"] = std::make_shared<Bytes>(sc.from);
    S.files["sim:patch"] = std::make_shared<Bytes>(sc.patch);
    if (buf & 1 && !sc.inp) S.files["sim:to"] = std::make_shared<Bytes>(Bytes(sc.out.size() + 50, 0x77));   // there already, longer
    f_step = 0;
    int r = call(sc, buf, steps);
    c.count(0);
    c.tick();
    auto full = [&]() { return what + ", buffering " + strf("%d", BUFS[buf]) + ", operations " + S.kinds; };
    if (!S.open.empty()) c.fail(full() + strf(": %zu file(s) not closed, result %d", S.open.size(), r));
    if (*S.files["sim:patch"] != sc.patch) c.fail(full() + ": the patch file was modified");
    if (!sc.inp && *S.files["sim:from"] != sc.from) c.fail(full() + ": the from file was modified");
    Bytes got;
    if (sc.inp) { got = *S.files["sim:from"]; if (got.size() > sc.out.size()) got.resize(sc.out.size()); }
    else if (S.files.count("sim:to")) got = *S.files["sim:to"];
    if (r >= 0) {
        if (S.visible) c.fail(full() + strf(": an operation failed but the result is %d", r));
        if (sc.verdict == 0) c.fail(full() + strf(": result %d for an invalid patch", r));
        if (r != (int)sc.out.size() || got != sc.out)
            c.fail(full() + strf(": result %d but the file holds %zu bytes\n%s\nexpected %zu bytes\n%s", r, got.size(), hex(got, 100).c_str(), sc.out.size(), hex(sc.out, 100).c_str()));
    } else if (sc.verdict == 1 && !S.visible) c.fail(full() + strf(": result %d although nothing failed", r));
    return {r, S.ops, S.calls};
}
static void explore(Ctx &c, const Scenario &sc)
{
    for (int buf = 0; buf < 5; buf++)
        for (int steps = 0; steps <= (sc.inp ? 1 : 0); steps++) {
            bool big = sc.from.size() > 4000 && !c.thorough;
            if (big && (buf == 2 || buf == 3 || (steps && buf) || (buf && sc.from.size() > 20000) || (steps && sc.from.size() > 20000))) continue;
            if (!c.next()) continue;
            c.desc(sc.name + strf(" buffering %d%s patch ", BUFS[buf], steps ? " steps" : "") + hex(sc.patch, 300));
            S.f[0] = S.f[1] = Fault();
            S.call_fault[0] = S.call_fault[1] = -1;
            std::string what = sc.name + (steps ? ", steps" : "");
            Outcome o = drive(c, sc, buf, steps, what);
            auto mark = [&](int64_t a, int64_t b, int64_t d) {
                int64_t k[5] = {buf, steps, a, b, d};
                c.distinct_add(fnv(sc.name.data(), sc.name.size(), fnv(k, sizeof k)));
            };
            if (sc.verdict == 1) c.sample(what + strf(", buffering %d: %lld operations, %lld stdio calls", BUFS[buf], (long long)o.ops, (long long)o.calls));
            int64_t limit = c.thorough ? 90 : 40;
            if (sc.from.size() > 20000) {       // large: single failures at the start, the end and near 64 KiB
                for (int64_t i = 0; i < o.ops; i++) {
                    if (i >= 4 && i < o.ops - 6 && i % (o.ops / 6 + 1)) continue;
                    for (int m = 0; m < NMODES; m++) {
                        S.f[0] = {i, m, false};
                        drive(c, sc, buf, steps, what + strf(", operation %lld fails (mode %d)", (long long)i, m));
                        mark(i, m, 0);
                    }
                }
                S.f[0] = Fault();
                continue;
            }
            for (int64_t i = 0; i < o.ops; i++)
                for (int m = 0; m < NMODES; m++)
                    for (int perm = 0; perm < (m == F_ERR ? 2 : 1); perm++) {
                        S.f[0] = {i, m, (bool)perm};
                        S.f[1] = Fault();
                        Outcome p = drive(c, sc, buf, steps, what + strf(", operation %lld fails (mode %d%s)", (long long)i, m, perm ? ", for good" : ""));
                        mark(i, m, perm);
                        if (sc.verdict != 1) continue;
                        if (o.ops <= limit || (m == F_ERR && !perm && i % 7 == 0 && o.ops < (c.thorough ? 600 : 200)))
                            for (int64_t j = i + 1; j < p.ops; j++)
                                for (int m2 = 0; m2 < 2; m2++) {
                                    S.f[1] = {j, m2, false};
                                    drive(c, sc, buf, steps, what + strf(", operations %lld (mode %d) and %lld (mode %d) fail", (long long)i, m, (long long)j, m2));
                                    mark(i * 8 + m, j, m2);
                                }
                    }
            S.f[0] = S.f[1] = Fault();
            if (sc.verdict == 1)
                for (int64_t i = 0; i < o.calls; i++) {
                    S.call_fault[0] = i;
                    S.call_fault[1] = -1;
                    Outcome p = drive(c, sc, buf, steps, what + strf(", stdio call %lld fails", (long long)i));
                    mark(-1, i, 0);
                    for (int64_t j = big ? std::max(i + 1, p.calls - 6) : i + 1; j < p.calls; j++) {
                        S.call_fault[1] = j;
                        drive(c, sc, buf, steps, what + strf(", stdio calls %lld and %lld fail", (long long)i, (long long)j));
                        mark(-2, i, j);
                    }
                }
        }
}
static void enumerate(Ctx &c)
{
    std::vector<Scenario> v;
    auto add = [&](const std::string &n, bool inp, Bytes patch, Bytes from, Bytes out, int verdict) { v.push_back({n, inp, patch, from, out, verdict}); };
    for (Repr r : RS) {
        std::vector<std::pair<Bytes, std::vector<Rec>>> base;
        base.push_back({mk(12, 1), {{mk(3, 2), mk(2, 3), 1}, {{}, {}, -2}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}}});
        base.push_back({mk(4, 1), {}});
        base.push_back({mk(1, 1), {{{}, mk(1, 2), 0}}});
        for (size_t n : {15, 16, 17, 127, 128, 129, 200, 201, 300}) base.push_back({mk(n, 1), {{mk(n, 2, 1), {}, -(int64_t)n}}});
        base.push_back({mk(600, 1, 1), {{mk(260, 2, 1), mk(330, 3, 0), -260}, {{}, {}, 0}, {mk(200, 4), mk(1, 9), 64}}});
        base.push_back({{}, {{{}, mk(20, 2), 0}}});
        for (size_t n : {4095, 4096, 4097, 9000}) base.push_back({mk(n, 1), {{mk(n, 2, 1), mk(3, 3), 0}}});
        base.push_back({mk(140000, 1), {{mk(70000, 2), mk(70001, 3), -60000}, {mk(1000, 4), mk(5, 3), 100000}}});
        // patches whose size is a power of two or just more
        if (r.comp == C_NONE)
            for (size_t n : {256u, 511u, 512u, 513u, 1024u, 4096u, 32768u, 33280u, 65535u, 65536u, 65537u, 66048u, 131072u, 131584u})
                for (int inp = 0; inp < 2; inp++) {
                    size_t m = n - 4;
                    Geo g{};
                    Bytes out, p;
                    for (;; m--) {
                        out = mk(m, 2);
                        g = {(int64_t)(m + 9), (int64_t)(m + 9), 0, 0, (int64_t)m};
                        p = inp ? inp_patch(Bytes(g.mem), g, out, 0, r) : seq_patch({{{}, out, 0}}, r);
                        if (p.size() <= n) break;
                    }
                    if (p.size() != n) continue;
                    add(strf("%s patch of %zu bytes", inp ? "in-place" : "sequential", n), inp, p, inp ? mk(g.mem, 4) : mk(21000, 5), out, 1);
                }
        for (size_t i = 0; i < base.size(); i++) {
            Bytes out, p = seq_patch(base[i].second, r);
            recs_apply(base[i].first, base[i].second, out);
            std::string n = strf("sequential %zu bytes, %zu records, %s", out.size(), base[i].second.size(), cname(r.comp));
            if (base[i].first.empty()) n += ", empty from";
            add(n, false, p, base[i].first, out, 1);
            if (out.size() > 20) continue;
            for (size_t k = 0; k < p.size(); k++) {
                Bytes t(p.begin(), p.begin() + k);
                Ref q = ref_seq(base[i].first, t);
                add(n + strf(", patch cut to %zu", k), false, t, base[i].first, q.out, q.v == REJECT || k == 0 ? 0 : 2);
            }
            Bytes f = base[i].first;
            for (size_t k = 0; k < base[i].first.size(); k++) {
                f.resize(k);
                Ref q = ref_seq(f, p);
                add(n + strf(", from cut to %zu", k), false, p, f, q.out, q.v == REJECT ? 0 : 2);
            }
        }
        struct IB { Geo g; int style; };
        std::vector<IB> ib = {{{12, 4, 4, 7, 9}, 2}, {{900, 300, 300, 520, 580}, 1}, {{8, 4, 4, 4, 0}, 0}, {{8, 2, 2, 5, 8}, 4}, {{10, 5, 5, 2, 3}, 1},
                              {{400, 200, 200, 200, 201}, 1}, {{9000, 4500, 4500, 4400, 4600}, 1},
                              {{262144, 65536, 65536, 131000, 190000}, 1}};
        for (auto &b : ib) {
            Bytes from = mk(b.g.mem, 5, b.g.mem > 100), out = mk(b.g.to, 6, b.g.mem > 100);
            Bytes p = inp_patch(from, b.g, out, b.style, r);
            std::string n = strf("in-place mem %d seg %d to %d %s", (int)b.g.mem, (int)b.g.seg, (int)b.g.to, cname(r.comp));
            add(n, true, p, from, out, 1);
            if (b.g.mem > 20) continue;
            for (size_t k = 0; k < p.size(); k++) {
                Bytes t(p.begin(), p.begin() + k);
                RefInp q = ref_inp(from, t);
                add(n + strf(", patch cut to %zu", k), true, t, from, q.out, q.v == REJECT || k == 0 ? 0 : 2);
            }
            // a shorter memory file: success is only allowed with the right data
            for (size_t k = 0; k < from.size(); k++) {
                Bytes f(from.begin(), from.begin() + k);
                add(n + strf(", memory cut to %zu", k), true, p, f, out, 2);
            }
        }
    }
    for (auto &sc : v) explore(c, sc);
}
#else
// From every reachable (memory file, stored step): a run, stopped at every change of the file or
// the step, must be completed by an undisturbed run.  What is still in a stream buffer at the
// stop is lost.  Runs that end because an operation fails are stops as well.
static void explore(Ctx &c, const Scenario &sc, int buf)
{
    struct P { Bytes mem; int step; std::string how; };
    std::vector<P> q;
    std::unordered_set<uint64_t> seen;
    auto arrive = [&](const Bytes &m, int step, const std::string &how) {
        c.count(2);
        if (seen.insert(fnv(m, 1469598103934665603ull + step)).second) q.push_back({m, step, how});
    };
    arrive(sc.from, 0, "first run");
    for (size_t qi = 0; qi < q.size(); qi++) {
        P p = q[qi];
        c.count(1);
        c.tick();
        auto start = [&]() {
            S.files.clear();
            S.files["sim:from"] = std::make_shared<Bytes>(p.mem);
            S.files["sim:patch"] = std::make_shared<Bytes>(sc.patch);
            S.f[0] = S.f[1] = Fault();
            f_step = p.step;
        };
        start();
        int change = 0;
        bool complete = false;
        S.on_change = [&]() {
            change++;
            auto m = S.files["sim:from"];
            if (f_step == 0 && change > 2) {     // completion has been stored: nothing may be missing
                Bytes got(m->begin(), m->begin() + std::min(m->size(), sc.out.size()));
                complete = true;
                if (got != sc.out && f_step != p.step)
                    c.fail(sc.name + strf(", buffering %d, from %s: completion stored while the file is not complete\nfile     %s\nexpected %s", BUFS[buf], p.how.c_str(), hex(got, 100).c_str(), hex(sc.out, 100).c_str()));
                if (got == sc.out) return;
            }
            arrive(*m, f_step, p.how + strf(", stopped at change %d", change));
        };
        int r = call(sc, buf, true);
        S.on_change = nullptr;
        c.count(3);
        Bytes got = *S.files["sim:from"];
        got.resize(sc.out.size());
        if (r != (int)sc.out.size() || got != sc.out || f_step != 0)
            c.fail(sc.name + strf(", buffering %d, from %s: run to the end gives %d, step %d\nfile     %s\nexpected %s", BUFS[buf], p.how.c_str(), r, f_step, hex(got, 100).c_str(), hex(sc.out, 100).c_str()));
        int64_t ops = S.ops;
        for (int64_t i = 0; i < ops; i++)
            for (int m = 0; m < 2; m++)
                for (int perm = 0; perm < 2 - m; perm++) {
                    start();
                    S.f[0] = {i, m, (bool)perm};
                    int r = call(sc, buf, true);
                    if (r >= 0) {
                        Bytes got = *S.files["sim:from"];
                        got.resize(sc.out.size());
                        if (got != sc.out || f_step) c.fail(sc.name + strf(", buffering %d, from %s: operation %lld fails, success but wrong data", BUFS[buf], p.how.c_str(), (long long)i));
                        continue;
                    }
                    Bytes got = *S.files["sim:from"];
                    got.resize(sc.out.size());
                    if (f_step == 0 && got == sc.out) continue;     // only closing failed
                    arrive(*S.files["sim:from"], f_step, p.how + strf(", operation %lld failed (mode %d%s)", (long long)i, m, perm ? ", for good" : ""));
                }
    }
    c.distinct_add(fnv(sc.patch));
    c.sample(sc.name + strf(", buffering %d: %zu states", BUFS[buf], q.size()));
}
static void enumerate(Ctx &c)
{
    struct IB { Geo g; int style; };
    std::vector<IB> ib = {{{12, 4, 4, 7, 9}, 2}, {{12, 4, 8, 7, 11}, 1}, {{8, 2, 2, 5, 8}, 4}, {{10, 5, 5, 2, 3}, 1}, {{6, 3, 0, 6, 6}, 1}, {{6, 3, 6, 6, 6}, 0},
                          {{400, 200, 200, 200, 201}, 1}, {{900, 300, 300, 520, 580}, 1}, {{900, 300, 600, 250, 880}, 3}};
    if (c.thorough) { ib.push_back({{9000, 4500, 4500, 4400, 4600}, 1}); ib.push_back({{16, 4, 4, 12, 15}, 2}); ib.push_back({{24, 4, 8, 12, 20}, 4}); }
    for (auto &b : ib)
        for (Repr r : RS)
            for (int buf = 0; buf < 5; buf++) {
                Bytes from = mk(b.g.mem, 5, b.g.mem > 100), out = mk(b.g.to, 6, b.g.mem > 100);
                if (!c.next()) continue;
                Scenario sc = {strf("in-place mem %d seg %d shift %d from %d to %d %s", (int)b.g.mem, (int)b.g.seg, (int)b.g.shift, (int)b.g.from, (int)b.g.to, cname(r.comp)), true,
                               inp_patch(from, b.g, out, b.style, r), from, out, 1};
                c.desc(sc.name);
                explore(c, sc, buf);
            }
}
#endif
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
