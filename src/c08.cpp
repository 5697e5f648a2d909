// C08: concurrent updates using separate objects do not interfere.
// (a) all interleavings of the API calls of two and three sessions;
// (b) a complete session run inside every callback invocation of another;
// (c) two sessions as coroutines switching at callbacks, all schedules up to a preemption bound;
// (d) in the thread sanitizer build: the same sessions in real threads.
#include "env.hpp"
#include "inpmodel.hpp"
#include <thread>
#include <atomic>
#include <ucontext.h>

struct Kind {
    std::string name;
    bool inp;
    Bytes patch, from;
    bool dump;         // dump and restore between the chunks
};
struct Session {
    const Kind *k;
    detools_apply_patch_t *s[2] = {0, 0};
    detools_apply_patch_in_place_t *p = 0;
    int cur = 0, op = 0, err = 0, res = 0;
    size_t pos = 0;
    SeqEnv se;
    InpEnv ie;
    Bytes state;
    size_t spos = 0;
    std::function<void(Session &)> hook;    // called at every callback invocation
    int64_t calls = 0, hook_at = -1;
    Session(const Kind *kk) : k(kk)
    {
        for (int i = 0; i < 2; i++) { s[i] = (detools_apply_patch_t *)malloc(sizeof *s[i]); memset(s[i], 0xa5, sizeof *s[i]); }
        p = (detools_apply_patch_in_place_t *)malloc(sizeof *p);
        memset(p, 0xa5, sizeof *p);
        se.from = &k->from;
        se.patch = ie.patch = &k->patch;
        ie.mem = k->from;
        ie.erased.assign(k->from.size(), 0);
    }
    ~Session() { free(s[0]); free(s[1]); free(p); }
    void enter() { if (calls++ == hook_at && hook) hook(*this); }
};
#define S ((Session *)a)
static int h_from_read(void *a, uint8_t *b, size_t n) { S->enter(); return env_from_read(&S->se, b, n); }
static int h_from_seek(void *a, int x) { S->enter(); return env_from_seek(&S->se, x); }
static int h_to_write(void *a, const uint8_t *b, size_t n) { S->enter(); return env_to_write(&S->se, b, n); }
static int h_patch_read(void *a, uint8_t *b, size_t n) { S->enter(); return S->k->inp ? env_inp_patch_read(&S->ie, b, n) : env_patch_read(&S->se, b, n); }
static int h_mem_read(void *a, void *d, uintptr_t s, size_t n) { S->enter(); return env_mem_read(&S->ie, d, s, n); }
static int h_mem_write(void *a, uintptr_t d, void *s, size_t n) { S->enter(); return env_mem_write(&S->ie, d, s, n); }
static int h_mem_erase(void *a, uintptr_t d, size_t n) { S->enter(); return env_mem_erase(&S->ie, d, n); }
static int h_step_set(void *a, int s) { S->enter(); return env_step_set(&S->ie, s); }
static int h_step_get(void *a, int *s) { S->enter(); return env_step_get(&S->ie, s); }
static int h_state_write(void *a, const void *b, size_t n) { S->enter(); S->state.insert(S->state.end(), (uint8_t *)b, (uint8_t *)b + n); return 0; }
static int h_state_read(void *a, void *b, size_t n)
{
    S->enter();
    if (n > S->state.size() - S->spos) return -1;
    memcpy(b, S->state.data() + S->spos, n);
    S->spos += n;
    return 0;
}
#undef S
static int init(Session &x, int cur)
{
    return x.k->inp ? detools_apply_patch_in_place_init(x.p, h_mem_read, h_mem_write, h_mem_erase, h_step_set, h_step_get, x.k->patch.size(), &x)
                    : detools_apply_patch_init(x.s[cur], h_from_read, h_from_seek, x.k->patch.size(), h_to_write, &x);
}
// A session is OPS calls: init, OPS-2 chunks (the first two small), finalize.
static void op(Session &x, int OPS)
{
    int o = x.op++;
    size_t n = x.k->patch.size();
    if (o == 0) {
        x.err = init(x, 0);
    } else if (o < OPS - 1) {
        if (x.err) return;
        size_t end = o == OPS - 2 ? n : o == 1 ? std::min<size_t>(n, n / 3 + 1) : std::min<size_t>(n, x.pos + n / 3);
        Bytes b(x.k->patch.begin() + x.pos, x.k->patch.begin() + end);
        x.err = x.k->inp ? detools_apply_patch_in_place_process(x.p, b.data(), b.size())
                         : detools_apply_patch_process(x.s[x.cur], b.data(), b.size());
        x.pos = end;
        if (x.k->dump && x.err == 0 && o < OPS - 2) {
            x.state.clear();
            x.spos = 0;
            x.err = detools_apply_patch_dump(x.s[x.cur], h_state_write);
            if (x.err) return;
            memset(x.s[x.cur], 0xdb, sizeof *x.s[0]);
            x.cur ^= 1;
            x.se.pos = 0;
            x.err = init(x, x.cur);
            if (!x.err) x.err = detools_apply_patch_restore(x.s[x.cur], h_state_read);
            if (!x.err) x.pos = detools_apply_patch_get_patch_offset(x.s[x.cur]);
        }
    } else {
        int f = x.k->inp ? detools_apply_patch_in_place_finalize(x.p) : detools_apply_patch_finalize(x.s[x.cur]);
        x.res = x.err ? x.err : f;
    }
}
static void run_callbacks(Session &x)
{
    size_t n = x.k->patch.size();
    x.res = x.k->inp ? detools_apply_patch_in_place_callbacks(h_mem_read, h_mem_write, h_mem_erase, h_step_set, h_step_get, h_patch_read, n, &x)
                     : detools_apply_patch_callbacks(h_from_read, h_from_seek, h_patch_read, n, h_to_write, &x);
}
struct Alone { int res; Bytes data; int64_t calls; };
static Alone result(const Session &x) { return {x.res, x.k->inp ? x.ie.mem : x.se.out, x.calls}; }
static void same(Ctx *c, const Session &x, const Alone &a, const std::string &what)
{
    Alone r = result(x);
    if (r.res != a.res || r.data != a.data) {
        std::string m = what + strf(": session %s: result %d data %s; alone: %d %s", x.k->name.c_str(), r.res, hex(r.data, 80).c_str(),
                                    a.res, hex(a.data, 80).c_str());
        if (c) c->fail(m);
        fprintf(stderr, "%s\n", m.c_str());
        _exit(10);
    }
}
static Bytes mk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}
static std::vector<Kind> kinds()
{
    std::vector<Kind> v;
    std::vector<Rec> l1 = {{mk(3, 2), mk(2, 3), 1}, {{}, {}, -2}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}};
    std::vector<Rec> l2 = {{mk(140, 2, 1), mk(130, 3, 1), -100}, {mk(3, 4), Bytes(70, 9), 0}};
    int i = 0;
    for (Repr r : std::vector<Repr>{{C_NONE, 0}, {C_CRLE, -3}, {C_HS, 0}, {C_LZMA, 0}}) {
        v.push_back({strf("seq a %s", cname(r.comp)), false, seq_patch(l1, r), mk(12, 1 + i), false});
        v.push_back({strf("seq b %s", cname(r.comp)), false, seq_patch(l2, r), mk(300, 40 + i, 1), false});
        if (r.comp != C_LZMA) {
            v.push_back({strf("seq b %s with dump/restore", cname(r.comp)), false, seq_patch(l2, r), mk(300, 80 + i, 1), true});
            Bytes bad = seq_patch(l1, r);
            bad.pop_back();
            v.push_back({strf("seq truncated %s", cname(r.comp)), false, bad, mk(12, 7 + i), false});
        }
        Geo g = {12, 4, 4, 7, 9}, h = {900, 300, 300, 520, 580};
        Bytes m1 = mk(12, 5 + i), m2 = mk(900, 6 + i, 1);
        v.push_back({strf("in-place a %s", cname(r.comp)), true, inp_patch(m1, g, mk(9, 9 + i), 2, r), m1, false});
        v.push_back({strf("in-place b %s", cname(r.comp)), true, inp_patch(m2, h, mk(580, 19 + i, 1), 1, r), m2, false});
        i++;
    }
    return v;
}
static const std::vector<Kind> K = kinds();

#ifdef VERIF_TSAN
// Every pair (and triple) of sessions in its own threads; the thread sanitizer stops at any race.
static void enumerate(Ctx &c)
{
    const int rounds = c.thorough ? 20 : 3;
    for (size_t i = 0; i < K.size(); i++)
        for (size_t j = i; j < K.size(); j++) {
            if (!c.next()) continue;
            c.desc("threads: " + K[i].name + " | " + K[j].name);
            const Kind *ks[3] = {&K[i], &K[j], &K[(i + j) % K.size()]};
            Alone a[3];
            for (int t = 0; t < 3; t++) { Session x(ks[t]); while (x.op < 5) op(x, 5); a[t] = result(x); }
            for (int r = 0; r < rounds; r++) {
                std::atomic<int> go{0};
                std::vector<std::thread> th;
                for (int t = 0; t < 3; t++)
                    th.emplace_back([&, t] {
                        go++;
                        while (go < 3) { }
                        { Session x(ks[t]); while (x.op < 5) op(x, 5); same(0, x, a[t], "threads"); }
                        if (!ks[t]->dump) { Session y(ks[t]); run_callbacks(y); if (y.res != a[t].res) _exit(10); }
                    });
                for (auto &t : th) t.join();
                c.count(2, 3);
                c.tick();
            }
            c.count(3);
            c.sample("threads: " + K[i].name + " | " + K[j].name);
        }
}
#else
static void enumerate(Ctx &c)
{
    auto alone = [&](const Kind *k, int OPS) { Session x(k); while (x.op < OPS) op(x, OPS); return result(x); };
    // (a) pairs, all interleavings; states are the positions of the lattice, executed one by one
    auto interleave = [&](std::vector<const Kind *> ks, int OPS) {
        std::vector<Alone> a;
        for (auto k : ks) a.push_back(alone(k, OPS));
        std::vector<int> seq, left(ks.size(), OPS);
        std::function<void()> rec = [&] {
            bool any = false;
            for (size_t t = 0; t < ks.size(); t++)
                if (left[t]) {
                    any = true;
                    left[t]--;
                    seq.push_back(t);
                    rec();
                    seq.pop_back();
                    left[t]++;
                }
            if (any) return;
            std::vector<Session *> xs;
            for (auto k : ks) xs.push_back(new Session(k));
            for (int t : seq) { op(*xs[t], OPS); c.count(2); }
            c.count(1);
            c.count(3);
            c.tick();
            std::string w = "interleaving ";
            for (int t : seq) w += 'A' + t;
            for (size_t t = 0; t < ks.size(); t++) same(&c, *xs[t], a[t], w);
            for (auto x : xs) delete x;
        };
        rec();
    };
    for (size_t i = 0; i < K.size(); i++)
        for (size_t j = i; j < K.size(); j++) {
            if (!c.next()) continue;
            c.desc("interleavings of " + K[i].name + " | " + K[j].name);
            interleave({&K[i], &K[j]}, 5);
            if (c.thorough) interleave({&K[i], &K[j]}, 6);
            c.sample("all interleavings of " + K[i].name + " | " + K[j].name);
        }
    std::vector<size_t> t3 = {0, 7, 11};
    for (size_t i = 0; i < K.size(); i++) {
        if (!c.next()) continue;
        c.desc("interleavings of three: " + K[i].name);
        interleave({&K[i], &K[(i + 5) % K.size()], &K[(i + 11) % K.size()]}, c.thorough ? 4 : 3);
    }
    // (b) a complete session inside every callback invocation of another one
    for (size_t i = 0; i < K.size(); i++)
        for (size_t j = 0; j < K.size(); j++) {
            if (!c.next()) continue;
            c.desc("nested: " + K[j].name + " inside " + K[i].name);
            Alone b5 = alone(&K[j], 5);
            for (int api = 0; api < 2; api++) {
                if (api && K[i].dump) continue;
                Session x(&K[i]);
                if (api) run_callbacks(x); else while (x.op < 5) op(x, 5);
                Alone a = result(x);
                for (int64_t at = 0; at < a.calls; at++) {
                    Session y(&K[i]);
                    y.hook_at = at;
                    y.hook = [&](Session &) {
                        Session z(&K[j]);
                        while (z.op < 5) op(z, 5);
                        same(&c, z, b5, strf("inside callback %lld of %s", (long long)at, K[i].name.c_str()));
                    };
                    if (api) run_callbacks(y); else while (y.op < 5) op(y, 5);
                    same(&c, y, a, strf("with %s run inside callback %lld", K[j].name.c_str(), (long long)at));
                    c.count(1);
                    c.count(2, 2);
                    c.count(3);
                    c.tick();
                }
            }
        }
    // (c) coroutines: every callback is a scheduling point
    static ucontext_t MAIN, CO[2];
    static std::vector<char> STK[2];
    static Session *CS[2];
    static bool FIN[2];
    static std::vector<int64_t> sw;      // scheduling points at which to switch
    static int64_t point;
    static size_t nsw;
    static int RUN;
    for (auto &k : STK) k.resize(1 << 18);
    struct Co {
        static void body(int t)
        {
            while (CS[t]->op < 5) op(*CS[t], 5);
            FIN[t] = true;
            swapcontext(&CO[t], &MAIN);
        }
        static void at_callback(Session &x)
        {
            x.hook_at = x.calls;         // again at the next one
            if (nsw < sw.size() && point == sw[nsw]) {
                nsw++;
                point++;
                int me = RUN;
                if (!FIN[!me]) { RUN = !me; swapcontext(&CO[me], &CO[!me]); }
            } else point++;
        }
    };
    auto schedule = [&](const Kind *a, const Kind *b, const Alone &ra, const Alone &rb) {
        Session x(a), y(b);
        CS[0] = &x;
        CS[1] = &y;
        point = 0;
        nsw = 0;
        for (int t = 0; t < 2; t++) {
            CS[t]->hook = Co::at_callback;
            CS[t]->hook_at = 0;
            FIN[t] = false;
            getcontext(&CO[t]);
            CO[t].uc_stack.ss_sp = STK[t].data();
            CO[t].uc_stack.ss_size = STK[t].size();
            CO[t].uc_link = 0;
            makecontext(&CO[t], (void (*)())Co::body, 1, t);
        }
        RUN = 0;
        while (!FIN[0] || !FIN[1]) {
            if (FIN[RUN]) RUN = !RUN;
            swapcontext(&MAIN, &CO[RUN]);
        }
        std::string w = "switching at callbacks";
        for (auto v : sw) w += strf(" %lld", (long long)v);
        same(&c, x, ra, w);
        same(&c, y, rb, w);
        c.count(1);
        c.count(2, point);
        c.count(3);
        c.tick();
        return point;
    };
    for (size_t i = 0; i < K.size(); i++)
        for (size_t j = 0; j < K.size(); j++) {
            if (!c.next()) continue;
            c.desc("coroutines: " + K[i].name + " | " + K[j].name);
            Alone a = alone(&K[i], 5), b = alone(&K[j], 5);
            sw.clear();
            int64_t n = schedule(&K[i], &K[j], a, b);
            for (int64_t p = 0; p < n; p++) {
                sw = {p};
                schedule(&K[i], &K[j], a, b);
                for (int64_t q = p + 1; q < n; q++) {
                    sw = {p, q};
                    schedule(&K[i], &K[j], a, b);
                    if (n > (c.thorough ? 150 : 32)) continue;
                    for (int64_t r = q + 1; r < n; r++) { sw = {p, q, r}; schedule(&K[i], &K[j], a, b); }
                }
            }
            c.sample(strf("%lld scheduling points, up to %d preemptions: ", (long long)n, n > (c.thorough ? 150 : 32) ? 2 : 3) + K[i].name + " | " + K[j].name);
        }
}
#endif
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
