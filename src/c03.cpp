// C03: damaged, truncated or hostile sequential patches never succeed wrongly,
// and never write more than the to-size of the header.
#include "env.hpp"

static void check(Ctx &c, const Bytes &from, const Bytes &patch, const char *what)
{
    Ref ref = ref_seq(from, patch);
    for (int api = 0; api < 4; api++) {
        if (api == 0 && patch.empty()) continue;
        // Ends before the stated patch size: an error, also when all records are there.
        bool early = api == 3;
        if (early && (patch.empty() || (patch[0] & 15) != C_NONE || ref.to_size == 0)) continue;
        SeqEnv e;
        e.from = &from;
        e.patch = &patch;
        e.out_limit = ref.to_size;
        Res r = api == 0 ? seq_callbacks(e) : api == 1 ? seq_process(e, {}) : seq_process(e, uniform(patch.size(), 1), 0xa5, early ? 1 + patch.size() % 3 : 0);
        c.count(0);
        const char *bad = 0;
        if (e.over) bad = "wrote more than the to-size";
        else if (e.badreq) bad = "read past the end of the patch";
        else if (r.res >= 0 && ref.v == REJECT) bad = "succeeded, must fail";
        else if (early && r.res >= 0) bad = "succeeded without all of the patch";
        else if (early) continue;
        else if (r.res < 0 && ref.v == ACCEPT) bad = "failed, must succeed";
        else if (r.res >= 0 && (r.res != (int)ref.out.size() || e.out != ref.out)) bad = "succeeded with wrong data";
        else if (ref.v == REJECT && r.res < 0 && ref.why == "type" && r.res != -DETOOLS_BAD_PATCH_TYPE) bad = "wrong patch type not reported as such";
        else if (ref.v == REJECT && ref.why == "compression" && r.res != -DETOOLS_BAD_COMPRESSION) bad = "unknown compression not reported as such";
        if (bad)
            c.fail(strf("%s, api %d: %s: result %d (%s), reference: %s (%s)\noutput   %s\nexpected %s\npatch %s\nfrom %s", what, api, bad,
                        r.res, r.res < 0 ? detools_error_as_string(r.res) : "-", vname(ref.v), ref.why.c_str(), hex(e.out, 100).c_str(),
                        hex(ref.out, 100).c_str(), hex(patch).c_str(), hex(from, 100).c_str()));
        if (api == 0) {
            c.count(4 + ref.v);
            if (ref.v == REJECT) c.distinct_add(fnv(patch));
        }
    }
}

static Bytes mk(size_t n, uint32_t s)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = s >> 24; }
    return b;
}

static void enumerate(Ctx &c)
{
    const Bytes from = mk(40, 3);
    std::vector<Repr> rs = {{C_NONE, 0}, {C_CRLE, -3}, {C_CRLE, 2}, {C_HS, 0}, {C_HS, 1}, {C_HS, 2}, {C_LZMA, 0}};
    // 1. Mutations of valid patches.
    std::vector<std::vector<Rec>> base = {
        {{mk(3, 2), mk(2, 3), 1}, {{}, {}, -2}, {mk(2, 4), {}, -3}, {{}, mk(1, 9), 0}},
        {{Bytes(20, 0), Bytes(70, 4), -20}, {Bytes(3, 1), {}, 0}},
        {{{}, mk(5, 1), 0}},
        {{mk(7, 1), {}, 0}},
    };
    for (size_t b = 0; b < base.size(); b++)
        for (Repr r : rs) {
            Bytes p = seq_patch(base[b], r);
            std::string nm = strf("base %zu %s/%d", b, cname(r.comp), r.mode);
            for (size_t i = 0; i <= p.size(); i++) {
                if (!c.next()) continue;
                c.desc(nm + strf(": truncate/substitute/insert/delete at %zu", i));
                // also every patch byte combined with a short from-data
                check(c, from, Bytes(p.begin(), p.begin() + i), "truncation");
                if (i < p.size()) {
                    for (int x = 0; x < 256; x++) {
                        Bytes d = p;
                        d[i] = x;
                        check(c, from, d, "substitution");
                    }
                    Bytes d = p;
                    d.erase(d.begin() + i);
                    check(c, from, d, "deletion");
                    d = p;
                    d.insert(d.begin() + i, p[i]);
                    check(c, from, d, "duplication");
                    // two substitutions
                    for (size_t j = i + 1; j < p.size() && p.size() < (c.thorough ? 100 : 40); j++)
                        for (int x : {0x00, 0x01, 0x3f, 0x40, 0x41, 0x80, 0xff})
                            for (int y : {0x00, 0x01, 0x3f, 0x40, 0x41, 0x80, 0xff}) {
                                Bytes d = p;
                                d[i] = x;
                                d[j] = y;
                                check(c, from, d, "two substitutions");
                            }
                }
                for (int x = 0; x < 256; x += (c.thorough ? 1 : 3)) {
                    Bytes d = p;
                    d.insert(d.begin() + i, x);
                    check(c, from, d, "insertion");
                }
            }
            for (size_t n = 0; n < from.size(); n++) {
                if (!c.next()) continue;
                c.desc(nm + strf(": from-data truncated to %zu", n));
                check(c, Bytes(from.begin(), from.begin() + n), p, "from truncation");
            }
        }
    // 2. All first bytes: patch type, compression, reserved bit.
    for (int h = 0; h < 256; h++) {
        if (!c.next()) continue;
        c.desc(strf("header byte %02x", h));
        for (size_t b = 0; b < base.size(); b++)
            for (Repr r : rs) {
                Bytes p = seq_patch(base[b], r);
                p[0] = h;
                check(c, from, p, "header byte");
            }
        for (int t = 0; t < 256; t++) { check(c, from, {(uint8_t)h, (uint8_t)t}, "two bytes"); check(c, from, {(uint8_t)h, (uint8_t)t, 0}, "three bytes"); }
    }
    // 3. All token sequences: hostile record structures up to a depth.
    //    A record position takes a size from the alphabet and, where the size is
    //    positive and fits, that many data bytes.
    std::vector<int64_t> sizes = {0, 1, 2, -1, 3, 4, -2, 5, 127, 128, (1 << 27) - 1, -(1 << 27) + 1};
    for (int64_t to : {1ll, 2ll, 4ll}) {
        // payload of up to two records (thorough: three): diff, extra, adj
        int depth = c.thorough ? 3 : 2;
        struct Gen {
            Ctx &c; const Bytes &from; int64_t to; const std::vector<int64_t> &sizes; int depth; const std::vector<Repr> &rs;
            void emit(const Bytes &p)
            {
                for (Repr r : {Repr{C_NONE, 0}, Repr{C_CRLE, 0}, Repr{C_HS, 0}}) {
                    Bytes b = seq_header(r.comp, to);
                    put(b, compress(p, r));
                    check(c, from, b, "token sequence");
                }
            }
            void rec(Bytes p, int field, int64_t sum)
            {
                if (field == 3 * depth) { emit(p); return; }
                int f = field % 3;
                for (int64_t s : sizes) {
                    if (f == 2 && (s > 5 || s < -2)) { if (field > 3) continue; }
                    Bytes q = p;
                    put(q, vsize(s));
                    if (f < 2) {
                        if (s < 0 || s > to + 1) {           // must be rejected: pad with data that would make it fly
                            for (int k = 0; k < 8; k++) q.push_back(k & 1);
                            emit(q);
                            continue;
                        }
                        for (int64_t k = 0; k < s; k++) q.push_back(field + k);
                        if (sum + s > to) { for (int k = 0; k < 6; k++) q.push_back(0); emit(q); continue; }
                        rec(q, field + 1, sum + s);
                    } else {
                        if (sum == to) { emit(q); continue; }
                        rec(q, field + 1, sum);
                    }
                }
            }
        };
        for (int64_t s : sizes) for (int64_t t : sizes) {
            if (!c.next()) continue;
            c.desc(strf("token sequences, to-size %lld, first sizes %lld %lld", (long long)to, (long long)s, (long long)t));
            if (s < 0 || s > to || t < 0 || t > to - s) {
                // one direct probe, long enough to run into trouble
                Bytes p = vsize(0);
                put(p, vsize(s));
                for (int64_t k = 0; k < std::min<int64_t>(std::max<int64_t>(s, 0), 8); k++) p.push_back(1);
                put(p, vsize(t));
                for (int k = 0; k < 40; k++) p.push_back(k % 3 == 0);
                Gen{c, from, to, sizes, depth, rs}.emit(p);
                continue;
            }
            Bytes p = vsize(0);
            put(p, vsize(s));
            for (int64_t k = 0; k < s; k++) p.push_back(9);
            put(p, vsize(t));
            for (int64_t k = 0; k < t; k++) p.push_back(8);
            Gen{c, from, to, sizes, depth, rs}.rec(p, 2, s + t);
        }
    }
    // 4. dfpatch size values and padded/overlong encodings of every size field.
    for (int64_t v : {-2, -1, 0, 1, 2, 63, 64, 8191}) {
        if (!c.next()) continue;
        c.desc(strf("dfpatch size %lld", (long long)v));
        for (Repr r : rs) {
            Bytes p = vsize(v), b = seq_header(r.comp, 3);
            put(p, recs_payload({{mk(1, 2), mk(2, 3), 0}}, false));
            put(b, compress(p, r));
            check(c, from, b, "dfpatch");
        }
    }
    for (int field = 0; field < 5; field++)
        for (int len = 2; len <= 8; len++)
            for (int last : {0, 1, 0x3f, 0x7f, 0x10, 0x08}) {
                if (!c.next()) continue;
                c.desc(strf("padded size in field %d, %d bytes, last %02x", field, len, last));
                for (Repr r : rs)
                    for (int sign = 0; sign < 2; sign++) {
                        int64_t vals[] = {3, 0, 1, 2, 0};
                        Bytes body;
                        Bytes head = {(uint8_t)r.comp};
                        for (int f = 0; f < 5; f++) {
                            Bytes &d = f == 0 ? head : body;
                            if (f == field) {
                                d.push_back(0x80 | vals[f] | (sign ? 0x40 : 0));
                                for (int k = 2; k < len; k++) d.push_back(0x80);
                                d.push_back(last);
                            } else put(d, vsize(vals[f]));
                            if (f == 2) d.push_back(7);
                            if (f == 3) { d.push_back(5); d.push_back(6); }
                        }
                        put(head, compress(body, r));
                        check(c, from, head, "padded size");
                    }
            }
    // 5. CRLE and heatshrink streams: all byte strings over a hostile alphabet as the compressed payload.
    std::vector<uint8_t> al = {0, 1, 2, 3, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xff};
    int len = c.thorough ? 7 : 5;
    int64_t total = 1;
    for (int i = 0; i < len; i++) total *= al.size();
    for (int comp : {C_NONE, C_CRLE, C_HS})
        for (int64_t g = 0; g < total; g += 2000) {
            if (!c.next()) continue;
            c.desc(strf("payload strings %lld.. of length %d, %s", (long long)g, len, cname(comp)));
            for (int64_t k = g; k < g + 2000 && k < total; k++) {
                int64_t q = k;
                Bytes b = {(uint8_t)comp, 2};
                if (comp == C_HS) b.push_back(0x44);
                for (int i = 0; i < len; i++) { b.push_back(al[q % al.size()]); q /= al.size(); }
                check(c, from, b, "payload string");
            }
        }
}
int main(int argc, char **argv) { return runner_main(argc, argv, enumerate); }
