// C05: dump and restore at any point equals an uninterrupted update.
// Explicit-state search: a state is (patch position, object bytes, environment).
// Transitions: hand over the next chunk of any size, or dump, let the old object run on
// over all that is left, destroy it, and restore into another poisoned object.
#include "env.hpp"

static struct detools_apply_patch_t OBJ[2];
static uint8_t BUF[1 << 16];

struct Env : SeqEnv {
    Bytes state;
    size_t spos = 0;
    int swrites = 0, sreads = 0;
    int fail_swrite = -1, fail_sread = -1;
};
static int state_write(void *a, const void *b, size_t n)
{
    Env *e = (Env *)(SeqEnv *)a;
    if (e->swrites++ == e->fail_swrite) return -7;
    e->state.insert(e->state.end(), (uint8_t *)b, (uint8_t *)b + n);
    return 0;
}
static int state_read(void *a, void *b, size_t n)
{
    Env *e = (Env *)(SeqEnv *)a;
    if (e->sreads++ == e->fail_sread) return -7;
    if (n > e->state.size() - e->spos) return -9;
    memcpy(b, e->state.data() + e->spos, n);
    e->spos += n;
    return 0;
}

struct Scenario {
    std::string name;
    Bytes patch, from;
    Verdict v;
    Bytes out;
    bool storable;      // state can be stored once the header has been read
    bool search;
};
static Env ENV;          // at a fixed address: the object points to it
struct Run {
    Env &e;
    Run() : e(ENV) { e = Env(); }
    int k = 0;          // current object
    size_t pos = 0;
    int err = 0;
};
static void start(const Scenario &sc, Run &r)
{
    memset(&OBJ[0], 0xa5, sizeof OBJ[0]);
    memset(&OBJ[1], 0x5a, sizeof OBJ[1]);
    r.e.from = &sc.from;
    r.e.patch = &sc.patch;
    r.err = detools_apply_patch_init(&OBJ[0], env_from_read, env_from_seek, sc.patch.size(), env_to_write, (SeqEnv *)&r.e);
}
static void feed(const Scenario &sc, Run &r, size_t n)
{
    memcpy(BUF, sc.patch.data() + r.pos, n);
    memset(BUF + n, 0xee, 16);
    r.err = detools_apply_patch_process(&OBJ[r.k], BUF, n);
    memset(BUF, 0xdd, n);
    r.pos += n;
}
// Returns 0 when restored, 1 when the library refused to store (as an error), and fails otherwise.
static int dump_restore(Ctx &c, const Scenario &sc, Run &r, bool run_on, const std::string &what)
{
    r.e.state.clear();
    r.e.spos = 0;
    size_t to_before = detools_apply_patch_get_to_offset(&OBJ[r.k]);
    int d = detools_apply_patch_dump(&OBJ[r.k], state_write);
    if (d > 0) c.fail(what + strf(": dump returned %d", d));
    if (d < 0) {
        if (sc.storable) c.fail(what + strf(": dump failed with %d (%s)", d, detools_error_as_string(d)));
        return 1;
    }
    Bytes out = r.e.out;
    if (to_before != out.size()) c.fail(what + strf(": to-offset %zu but %zu bytes written", to_before, out.size()));
    if (run_on && r.err == 0) feed(sc, r, sc.patch.size() - r.pos);   // lost in the crash
    if (run_on && r.e.failed) r.e.failed = false;
    memset(&OBJ[r.k], 0xdb, sizeof OBJ[0]);
    r.k ^= 1;
    memset(&OBJ[r.k], r.k ? 0x5a : 0xa5, sizeof OBJ[0]);
    r.e.pos = 0;   // from-data freshly opened
    int i = detools_apply_patch_init(&OBJ[r.k], env_from_read, env_from_seek, 3, env_to_write, (SeqEnv *)&r.e);
    if (i != 0) c.fail(what + strf(": init failed with %d", i));
    int s = detools_apply_patch_restore(&OBJ[r.k], state_read);
    if (s > 0) c.fail(what + strf(": restore returned %d", s));
    if (s < 0) {
        if (sc.storable) c.fail(what + strf(": restore failed with %d (%s)", s, detools_error_as_string(s)));
        return 1;
    }
    size_t to = detools_apply_patch_get_to_offset(&OBJ[r.k]);
    size_t po = detools_apply_patch_get_patch_offset(&OBJ[r.k]);
    if (po > sc.patch.size() || to > out.size())
        c.fail(what + strf(": restored at patch offset %zu and to-offset %zu, beyond what was done (%zu)", po, to, out.size()));
    r.pos = po;
    r.e.out.assign(out.begin(), out.begin() + to);
    r.err = 0;
    return 0;
}
static std::string path(const std::vector<int> &p)
{
    std::string s;
    for (auto x : p) s += (s.empty() ? "" : ",") + (x < 0 ? std::string(x == -1 ? "DR" : "D+R") : std::to_string(x));
    return s;
}
static void judge(Ctx &c, const Scenario &sc, Run &r, int res, const std::string &what)
{
    bool ok = res >= 0;
    const char *bad = 0;
    if (ok && sc.v == REJECT) bad = "succeeded, must fail";
    else if (!ok && sc.v == ACCEPT) bad = "failed, must succeed";
    else if (ok && (res != (int)sc.out.size() || r.e.out != sc.out)) bad = "succeeded with wrong data";
    if (bad)
        c.fail(what + strf(": %s: result %d (%s)\noutput   %s\nexpected %s\npatch %s\nfrom %s", bad, res,
                           res < 0 ? detools_error_as_string(res) : "-", hex(r.e.out, 120).c_str(),
                           hex(sc.out, 120).c_str(), hex(sc.patch).c_str(), hex(sc.from, 100).c_str()));
}
static uint64_t digest(Run &r)
{
    uint64_t h = fnv(&OBJ[r.k], sizeof OBJ[0]);
    h = fnv(r.e.out, h);
    h = fnv(&r.e.pos, 8, h);
    h = fnv(&r.pos, sizeof r.pos, h);
    return fnv(&r.err, sizeof r.err, h);
}
static int finish(Run &r)
{
    int f = detools_apply_patch_finalize(&OBJ[r.k]);
    return r.err != 0 ? r.err : f;
}
// A storable state has no heap part, so states are saved and put back as bytes.
struct Saved { Bytes obj, out; int64_t from_pos; size_t pos; int k, err; bool failed; };
static Saved save(const Run &r)
{
    return {Bytes((uint8_t *)&OBJ[r.k], (uint8_t *)(&OBJ[r.k] + 1)), r.e.out, r.e.pos, r.pos, r.k, r.err, r.e.failed};
}
static void load(const Scenario &sc, Run &r, const Saved &s)
{
    memset(&OBJ[0], 0xa5, sizeof OBJ[0]);
    memset(&OBJ[1], 0x5a, sizeof OBJ[1]);
    memcpy(&OBJ[s.k], s.obj.data(), sizeof OBJ[0]);
    r.e.from = &sc.from;
    r.e.patch = &sc.patch;
    r.e.out = s.out;
    r.e.pos = s.from_pos;
    r.e.failed = s.failed;
    r.pos = s.pos;
    r.k = s.k;
    r.err = s.err;
}
static void explore(Ctx &c, const Scenario &sc)
{
    size_t n = sc.patch.size();
    struct Node { Saved s; int parent; int move; };
    std::vector<Node> q;
    std::unordered_set<uint64_t> seen;
    uint64_t restored = 0;
    {
        Run r;
        start(sc, r);
        q.push_back({save(r), -1, 0});
    }
    auto pathof = [&](int i) {
        std::vector<int> p;
        for (; q[i].parent >= 0; i = q[i].parent) p.insert(p.begin(), q[i].move);
        return path(p);
    };
    for (size_t qi = 0; qi < q.size(); qi++) {
        Saved sv = std::move(q[qi].s);
        q[qi].s = Saved();
        bool first = qi == 0;
        int last = q[qi].move;
        c.count(1);
        if (qi % 64 == 0) c.tick();
        size_t left = n - sv.pos;
        bool err = sv.err != 0;
        // every state may be the last one when all data has been given
        if (left == 0 || err) {
            Run r;
            load(sc, r, sv);
            int res = finish(r);
            c.count(3);
            judge(c, sc, r, res, sc.name + ": " + pathof(qi));
        }
        std::vector<int> moves;
        if (first || last >= 0) { moves.push_back(-1); if (left) moves.push_back(-2); }
        if (!err && (first || last != 0)) moves.push_back(0);
        if (!err) {
            if (sc.search) for (size_t k = 1; k <= left; k++) moves.push_back(k);
            else for (size_t k : {1, 7, 64, 300}) if (k <= left) moves.push_back(k);
            if (!sc.search && left > 0) moves.push_back(left);
        }
        for (int m : moves) {
            Run r;
            load(sc, r, sv);
            int s;
            if (m >= 0) { feed(sc, r, m); s = 0; }
            else s = dump_restore(c, sc, r, m == -2, sc.name + ": " + pathof(qi) + (m == -1 ? ",DR" : ",D+R"));
            c.count(2);
            if (m < 0) restored += s == 0;
            if (s) continue;
            if (r.e.out.size() > sc.out.size() && sc.v != REJECT)
                c.fail(sc.name + ": " + pathof(qi) + strf(",%d: more to-data than there is", m));
            if (seen.insert(digest(r)).second) q.push_back({save(r), (int)qi, m});
        }
    }
    if (restored) c.distinct_add(fnv(sc.patch, fnv(sc.from)));
    c.sample(sc.name + strf(": %zu bytes, %zu states, %llu dump/restore steps", n, q.size(), (unsigned long long)restored));
}
// The state of this compression cannot be stored: at every position either the restored
// update starts over from the beginning, or dump reports an error and the update goes on.
static void refused(Ctx &c, const Scenario &sc)
{
    uint64_t no = 0;
    for (size_t p = 0; p <= sc.patch.size(); p++) {
        for (int again = 0; again < 2; again++) {
            Run r;
            start(sc, r);
            feed(sc, r, p);
            std::string what = sc.name + strf(": dump after %zu bytes", p);
            c.count(1);
            c.count(2);
            c.tick();
            bool was_err = r.err != 0;
            if (was_err) { int res = finish(r); judge(c, sc, r, res, what); continue; }
            int d = detools_apply_patch_dump(&OBJ[0], state_write);
            if (d > 0) c.fail(what + strf(" returned %d", d));
            if (d < 0) {
                no++;
                if (again) (void)detools_apply_patch_dump(&OBJ[0], state_write);
                feed(sc, r, sc.patch.size() - p);
                int res = finish(r);
                c.count(3);
                judge(c, sc, r, res, what + ", refused, continued");
                continue;
            }
            (void)finish(r);
            memset(&OBJ[0], 0xdb, sizeof OBJ[0]);
            memset(&OBJ[1], 0x5a, sizeof OBJ[1]);
            r.k = 1;
            r.e.pos = 0;
            r.e.failed = false;
            detools_apply_patch_init(&OBJ[1], env_from_read, env_from_seek, 3, env_to_write, (SeqEnv *)&r.e);
            int s = detools_apply_patch_restore(&OBJ[1], state_read);
            if (s > 0) c.fail(what + strf(": restore returned %d", s));
            if (s < 0) { (void)detools_apply_patch_finalize(&OBJ[1]); continue; }
            r.pos = detools_apply_patch_get_patch_offset(&OBJ[1]);
            size_t to = detools_apply_patch_get_to_offset(&OBJ[1]);
            if (r.pos > p || to > r.e.out.size()) c.fail(what + ": restored too far ahead");
            r.e.out.resize(to);
            r.err = 0;
            feed(sc, r, sc.patch.size() - r.pos);
            int res = finish(r);
            c.count(3);
            judge(c, sc, r, res, what + ", restored");
        }
    }
    if (sc.out.size() && !no && sc.v == ACCEPT) c.fail(sc.name + ": dump was never refused but the state cannot be stored");
    c.distinct_add(fnv(sc.patch, fnv(sc.from)));
}
// Failing state and seek callbacks.
static void faults(Ctx &c, const Scenario &sc)
{
    for (size_t p = 0; p <= sc.patch.size(); p++) {
        for (int f = 0; f < 3; f++) {
            Run r;
            start(sc, r);
            feed(sc, r, p);
            if (r.err) { (void)finish(r); continue; }
            std::string what = sc.name + strf(": dump after %zu bytes, %s fails", p, f == 0 ? "state write" : f == 1 ? "state read" : "from seek");
            if (f == 0) r.e.fail_swrite = 0;
            int d = detools_apply_patch_dump(&OBJ[0], state_write);
            c.count(2);
            if (f == 0) {
                if (d >= 0) c.fail(what + strf(", dump returned %d", d));
                (void)finish(r);
                continue;
            }
            (void)finish(r);
            if (d != 0) continue;
            memset(&OBJ[1], 0x5a, sizeof OBJ[1]);
            r.e.pos = 0;
            detools_apply_patch_init(&OBJ[1], env_from_read, env_from_seek, 3, env_to_write, (SeqEnv *)&r.e);
            if (f == 1) r.e.fail_sread = 0;
            if (f == 2) r.e.fail_at = r.e.calls;
            int s = detools_apply_patch_restore(&OBJ[1], state_read);
            bool hit = f == 1 || r.e.failed;
            if (hit && s >= 0) c.fail(what + strf(", restore returned %d", s));
            (void)detools_apply_patch_finalize(&OBJ[1]);
        }
        c.tick();
    }
}

// Large patches: dumped and restored at every position near a power of two, a record boundary
// or the end, once and at all of them in a row.
static void far(Ctx &c, const Scenario &sc)
{
    size_t n = sc.patch.size();
    auto to = [&](Run &r, size_t p) { while (r.pos < p && !r.err) feed(sc, r, std::min<size_t>(p - r.pos, 60000)); };
    std::set<size_t> at = {0, 1, 2, 3, 4, 5, 6, n, n - 1, n - 2, n - 3};
    for (int k = 3; k < 24; k++) for (int d : {-1, 0, 1}) if ((1u << k) + d < n) { at.insert((1 << k) + d); at.insert(n - (1 << k) - d); }
    for (size_t k = 9973; k < n; k += 9973) at.insert(k);
    for (size_t p : at)
        for (int run_on = 0; run_on < 2; run_on++) {
            Run r;
            start(sc, r);
            to(r, p);
            std::string what = sc.name + strf(": %s after %zu of %zu bytes", run_on ? "dumped, run on, and restored" : "dumped and restored", p, n);
            if (dump_restore(c, sc, r, run_on && n - p <= 60000, what)) continue;
            to(r, n);
            judge(c, sc, r, finish(r), what);
            c.count(1); c.count(2); c.count(3);
            c.tick();
        }
    Run r;
    start(sc, r);
    for (size_t p : at) {
        to(r, p);
        if (dump_restore(c, sc, r, false, sc.name + strf(": dumped and restored at all positions up to %zu", p))) break;
        c.count(2);
    }
    to(r, n);
    judge(c, sc, r, finish(r), sc.name + ": dumped and restored at all positions");
    c.distinct_add(fnv(sc.patch, fnv(sc.from)));
    c.sample(sc.name + strf(": %zu bytes, %zu positions", n, at.size()));
}
static Bytes mk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}
static void enumerate(Ctx &c)
{
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_CRLE, 2}, {C_CRLE, 0}, {C_HS, 0}, {C_HS, 1}, {C_HS, 2}, {C_LZMA, 0}};
    // record structures: all lists of two or three records over a small alphabet of shapes
    Bytes from = mk(16, 1);
    std::vector<Rec> shapes = {{mk(2, 2), mk(1, 3), 1}, {{}, mk(3, 4), -1}, {mk(3, 5), {}, -3}, {{}, {}, 2}, {mk(1, 6), mk(2, 7), 0}};
    std::vector<std::vector<Rec>> lists;
    for (size_t a = 0; a < shapes.size(); a++) {
        lists.push_back({shapes[a]});
        for (size_t b = 0; b < shapes.size(); b++) {
            lists.push_back({shapes[a], shapes[b]});
            if (c.thorough) for (size_t d = 0; d < shapes.size(); d++) lists.push_back({shapes[a], shapes[b], shapes[d]});
        }
    }
    std::vector<std::pair<Bytes, std::vector<Rec>>> big;
    big.push_back({mk(300, 1, 1), {{mk(140, 2, 1), mk(3, 3), -140}, {mk(70, 4, 1), mk(65, 9, 1), 64}, {{}, {}, -100}, {mk(3, 1), mk(1, 2), -1}}});
    big.push_back({Bytes(600, 5), {{Bytes(400, 0), Bytes(129, 7), -400}, {mk(10, 1), mk(4, 8), 0}, {Bytes(2, 0), Bytes(130, 6), -1}}});
    big.push_back({mk(40, 1), {{{}, mk(500, 7, 1), 9}, {mk(20, 4), Bytes(300, 9), 0}}});
    auto run = [&](const std::string &name, const Bytes &f, const Bytes &patch, int comp, bool search) {
        Ref ref = ref_seq(f, patch);
        if (ref.v == EITHER) return;
        bool storable = comp == C_NONE || comp == C_CRLE;
#if HEATSHRINK_DYNAMIC_ALLOC == 0
        if (comp == C_HS) storable = true;
#endif
        Scenario sc = {name, patch, f, ref.v, ref.out, storable, search};
        if (!storable) { refused(c, sc); return; }
        explore(c, sc);
        faults(c, sc);
    };
    for (size_t i = 0; i < lists.size(); i++) {
        auto &l = lists[i];
        Bytes o;
        bool valid = recs_apply(from, l, o);
        for (Repr r : rs) {
            if (!c.next()) continue;
            Bytes p = seq_patch(l, r);
            std::string name = strf("list %zu (%s) %s/%d", i, valid ? "valid" : "invalid", cname(r.comp), r.mode);
            c.desc(name + " patch " + hex(p, 300));
            run(name, from, p, r.comp, true);
            // truncated and with a wrong first record size
            run(name + " truncated", from, Bytes(p.begin(), p.end() - 1), r.comp, true);
            if (p.size() > 4) { Bytes d = p; d[2] ^= 0x09; run(name + " damaged", from, d, r.comp, true); }
        }
    }
    for (size_t i = 0; i < big.size(); i++)
        for (Repr r : rs) {
            if (!c.next()) continue;
            Bytes p = seq_patch(big[i].second, r);
            std::string name = strf("big %zu %s/%d", i, cname(r.comp), r.mode);
            c.desc(name);
            run(name, big[i].first, p, r.comp, p.size() < (c.thorough ? 400 : 130));
        }
    // adjustments and sizes of two to four bytes, each cut everywhere
    Bytes wide = mk(2200000, 1);
    for (int64_t a : {70, 8191, 8192, 9000, 70000, 1048575, 1048577, 2100000})
        for (Repr r : rs) {
            if (!c.next()) continue;
#if HEATSHRINK_DYNAMIC_ALLOC
            if (a != 9000 && a != 1048577) continue;
#endif
            for (size_t m : {0, 200}) {
                if (m && a != 9000 && a != 70000) continue;
                std::vector<Rec> l = {{mk(2, 2), {}, a}, {mk(1, 4), mk(1, 3), -a - 3}, {mk(2 + m, 5), {}, a + 5}, {mk(1, 6), {}, -a}};
                Bytes p = seq_patch(l, r);
                std::string name = strf("adjustments of %lld, %zu bytes, %s/%d", (long long)a, m, cname(r.comp), r.mode);
                c.desc(name + " patch " + hex(p, 300));
                run(name, wide, p, r.comp, m == 0);
            }
        }
    for (int i = 0; i < 3; i++)
        for (Repr r : rs) {
            if (!c.next()) continue;
#if HEATSHRINK_DYNAMIC_ALLOC
            if (r.comp == C_HS) continue;
#endif
            if (r.comp == C_LZMA) continue;
            std::vector<Rec> l = i == 0 ? std::vector<Rec>{{mk(70000, 2, 1), mk(70001, 3), 60000}, {mk(1000, 4), mk(5, 3), -120000}, {mk(65537, 2), {}, 0}}
                : i == 1 ? std::vector<Rec>{{{}, mk(200000, 3, 1), 131072}, {mk(66000, 3, 1), {}, -190000}, {Bytes(1000, 3), Bytes(131073, 4), 0}}
                : std::vector<Rec>{{Bytes(65536, 0), mk(65536, 1), 65536}, {mk(65536, 2), Bytes(70000, 7), -1}};
            Scenario sc = {strf("large patch %d %s/%d", i, cname(r.comp), r.mode), seq_patch(l, r), mk(200000, 1), ACCEPT, {}, true, false};
            c.desc(sc.name);
            if (!recs_apply(sc.from, l, sc.out)) abort();
            far(c, sc);
        }
    // empty to-data
    for (Repr r : rs) {
        if (!c.next()) continue;
        std::string name = std::string("empty to-data ") + cname(r.comp);
        c.desc(name);
        run(name, from, seq_patch({}, r), r.comp, true);
    }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
