// Independent model of in-place patches: generator and reference interpreter.
#pragma once
#include "model.hpp"

static inline int64_t cdiv(int64_t a, int64_t b) { return (a + b - 1) / b; }

// Memory image after the shift phase, as the format defines it.
static inline Bytes inp_shifted(const Bytes &mem0, const Geo &g)
{
    Bytes m = mem0;
    int64_t n = cdiv(std::min(g.from, g.mem - g.shift), g.seg);
    for (int64_t i = n - 1; i >= 0; i--)
        for (int64_t k = 0; k < g.seg; k++) m[i * g.seg + g.shift + k] = m[i * g.seg + k];
    return m;
}

// Builds the records of one segment.  style:
//  0 extra only; 1 one diff as long as possible then extra; 2 many small records
//  with forward and backward adjustments; 3 diff taken from the very end of the
//  from-data; 4 an empty record first, then the diff
static inline Bytes inp_segment(const Bytes &shifted, const Geo &g, const Bytes &to, int64_t idx, int style)
{
    int64_t off = idx * g.seg, n = std::min(g.seg, g.to - off);
    int64_t base = std::max(g.seg * (idx + 1), g.shift);
    // Valid source bytes: what is left of the shifted from-data.
    int64_t lo = base, hi = std::min(g.shift + g.from, g.mem);
    if (hi < lo) hi = lo;
    std::vector<Rec> rs;
    int64_t pos = base, done = 0;
    auto diff = [&](int64_t at, int64_t len) {
        Bytes d;
        for (int64_t k = 0; k < len; k++) d.push_back(to[off + done + k] - shifted[at + k]);
        return d;
    };
    auto extra = [&](int64_t len) { return Bytes(to.begin() + off + done, to.begin() + off + done + len); };
    if (style == 0 || hi == lo) {
        rs.push_back({{}, extra(n), style == 0 ? 0 : 3});
    } else if (style == 1 || style == 3 || style == 4) {
        int64_t len = std::min(n, hi - lo);
        int64_t at = lo;
        if (style == 3) { at = hi - len; }
        if (style != 1) { rs.push_back({{}, {}, at - pos}); pos = at; }
        Rec r;
        r.diff = diff(at, len);
        done += len;
        r.extra = extra(n - done);
        r.adj = -1;
        rs.push_back(r);
    } else {
        // style 2
        uint32_t x = 7 + idx * 13;
        int64_t next = lo;
        rs.push_back({{}, {}, next - pos});
        pos = next;
        while (done < n) {
            Rec r;
            int64_t len = std::min<int64_t>({n - done, hi - pos, (int64_t)(x % 5)});
            r.diff = diff(pos, len);
            done += len;
            pos += len;
            int64_t e = std::min<int64_t>(n - done, (int64_t)(x / 5 % 3));
            if (len == 0 && e == 0) e = std::min<int64_t>(n - done, 1);
            r.extra = extra(e);
            done += e;
            x = x * 1103515245u + 12345u;
            x &= 0x7fffffff;
            next = lo + x % (hi - lo);
            r.adj = next - pos;
            pos = next;
            rs.push_back(r);
        }
    }
    return recs_payload(rs);
}
static inline Bytes inp_patch(const Bytes &mem0, const Geo &g, const Bytes &to, int style, Repr r)
{
    Bytes b = inp_header(r.comp, g);
    if (g.to == 0) return b;
    Bytes sh = inp_shifted(mem0, g);
    Bytes p;
    for (int64_t i = 0; i * g.seg < g.to; i++) put(p, inp_segment(sh, g, to, i, style));
    put(b, compress(p, r));
    return b;
}

// Reference verdict for any bytes presented as an in-place patch.
struct RefInp {
    Verdict v = REJECT;
    Bytes out;              // first to-size bytes of the memory when v != REJECT
    Geo g = {0, 0, 0, 0, 0};
    bool header_ok = false; // header could be read completely
    bool contradictory = false;
    std::string why;
};
static inline RefInp ref_inp(const Bytes &mem0, const Bytes &patch, bool lzma_ok = true)
{
    RefInp r;
    bool either = false, dummy = false;
    if (patch.empty()) { r.why = "empty"; return r; }
    int type = (patch[0] >> 4) & 7, comp = patch[0] & 15;
    if (type != 1) { r.why = "type"; return r; }
    size_t i = 1;
    int64_t f[5];
    for (int k = 0; k < 5; k++) {
        size_t at = i;
        if (rd_size(patch, i, f[k], dummy)) { r.why = "header"; return r; }
        if (patch[at] & 0x40) either = true;
        if (f[k] < 0) f[k] = -f[k];
    }
    r.g = {f[0], f[1], f[2], f[3], f[4]};
    const Geo &g = r.g;
    r.header_ok = true;
    if (g.seg == 0 || g.shift > g.mem || g.to > g.mem) {
        r.contradictory = true;
        r.why = "contradictory header";
        if (g.to == 0) r.v = EITHER; // nothing to do: either answer is harmless
        return r;
    }
    if (comp != C_NONE && comp != C_CRLE && comp != C_HS && !(comp == C_LZMA && lzma_ok)) {
        if (!(g.mem % g.seg || g.shift % g.seg)) r.why = "compression";
        return r;
    }
    if (g.mem % g.seg || g.shift % g.seg) either = true;
    if (g.to == 0) { r.v = i == patch.size() && !either ? ACCEPT : EITHER; return r; }
    if (g.mem > (int64_t)mem0.size()) { r.why = "memory"; r.v = EITHER; return r; }
    if (either && (g.mem % g.seg || g.shift % g.seg)) {
        // Result of odd geometries is not defined; only range safety is checked.
        r.v = EITHER;
        r.why = "odd geometry";
        r.out.clear();
        r.g.to = -1;
        return r;
    }
    Plain pl = plain_of(comp, patch.data() + i, patch.size() - i);
    if (pl.exotic) either = true;
    Bytes m = inp_shifted(mem0, g);
    // erased areas read as 0xff: reads of them are well defined only on flash
    size_t k = 0;
    int64_t v = 0;
    auto size = [&](const char *what) {
        int s = rd_size(pl.d, k, v, either);
        if (s) { r.why = std::string(what) + (s == 1 ? ": out of data" : ": overflow"); return false; }
        return true;
    };
    for (int64_t idx = 0; idx * g.seg < g.to; idx++) {
        if (!size("dfpatch")) return r;
        if (v > 0) { r.why = "dfpatch"; return r; }
        if (v < 0) either = true;
        int64_t off = idx * g.seg, n = std::min(g.seg, g.to - off), done = 0;
        int64_t pos = std::max(g.seg * (idx + 1), g.shift);
        // erase
        for (int64_t a = off; a < off + g.seg; a++) m[a] = 0xff;
        do {
            if (!size("diff size")) return r;
            if (v < 0 || done + v > n) { r.why = "diff size"; return r; }
            for (int64_t j = 0; j < v; j++) {
                if (k >= pl.d.size()) { r.why = "diff data"; return r; }
                if (pos < 0 || pos >= g.mem) { r.why = "from address"; return r; }
                if (pos < off + g.seg) either = true;   // reads what it already replaced
                m[off + done++] = (uint8_t)(pl.d[k++] + m[pos++]);
            }
            if (!size("extra size")) return r;
            if (v < 0 || done + v > n) { r.why = "extra size"; return r; }
            if (k + v > pl.d.size()) { r.why = "extra data"; return r; }
            for (int64_t j = 0; j < v; j++) m[off + done++] = pl.d[k++];
            if (!size("adjustment")) return r;
            pos += v;
            if (done < n && (pos < 0 || pos > g.mem)) either = true;
        } while (done < n);
    }
    if (comp == C_NONE && k < pl.d.size()) { r.why = "data after the last record"; return r; }
    if (k < pl.d.size() || pl.left || pl.noend || pl.bad) either = true;
    r.v = either ? EITHER : ACCEPT;
    r.out.assign(m.begin(), m.begin() + g.to);
    return r;
}
