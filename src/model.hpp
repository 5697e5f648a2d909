// Independent model of the detools patch format: encoders for every supported
// compression and a three-valued reference decoder.  Shares no code with /repo.
#pragma once
#include "run.hpp"
#include <lzma.h>

enum { C_NONE = 0, C_LZMA = 1, C_CRLE = 2, C_HS = 4 };
static inline const char *cname(int c)
{
    return c == C_NONE ? "none" : c == C_LZMA ? "lzma" : c == C_CRLE ? "crle" : c == C_HS ? "heatshrink" : "?";
}

static inline void put(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }

// Signed variable-length size.
static inline Bytes vsize(int64_t v)
{
    Bytes b;
    uint64_t m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
    uint8_t first = (m & 0x3f) | (v < 0 ? 0x40 : 0);
    m >>= 6;
    b.push_back(first | (m ? 0x80 : 0));
    while (m) {
        uint8_t x = m & 0x7f;
        m >>= 7;
        b.push_back(x | (m ? 0x80 : 0));
    }
    return b;
}
static inline Bytes usize7(uint64_t v)
{
    Bytes b;
    do {
        uint8_t x = v & 0x7f;
        v >>= 7;
        b.push_back(x | (v ? 0x80 : 0));
    } while (v);
    return b;
}

struct Rec { Bytes diff, extra; int64_t adj; };

static inline Bytes recs_payload(const std::vector<Rec> &recs, bool dfpatch = true)
{
    Bytes p;
    if (dfpatch) put(p, vsize(0));
    for (auto &r : recs) {
        put(p, vsize(r.diff.size()));
        put(p, r.diff);
        put(p, vsize(r.extra.size()));
        put(p, r.extra);
        put(p, vsize(r.adj));
    }
    return p;
}
static inline size_t recs_size(const std::vector<Rec> &recs)
{
    size_t n = 0;
    for (auto &r : recs) n += r.diff.size() + r.extra.size();
    return n;
}
// Semantics of records applied to from; false if from-data runs out or a seek goes negative.
static inline bool recs_apply(const Bytes &from, const std::vector<Rec> &recs, Bytes &out)
{
    int64_t pos = 0;
    for (auto &r : recs) {
        for (uint8_t d : r.diff) {
            if (pos < 0 || pos >= (int64_t)from.size()) return false;
            out.push_back((uint8_t)(d + from[pos++]));
        }
        put(out, r.extra);
        pos += r.adj;
        if (pos < 0) return false;
    }
    return true;
}

// ---- compressors -------------------------------------------------------
// crle: mode -1: one repeated token per run; 0: one scattered token;
//       k>0: scattered tokens of k bytes; -t (t>=2): runs >= t repeated, others scattered
static inline Bytes enc_crle(const Bytes &p, int mode)
{
    Bytes o;
    auto scattered = [&](size_t a, size_t b) {
        if (a == b) return;
        o.push_back(0);
        put(o, usize7(b - a));
        o.insert(o.end(), p.begin() + a, p.begin() + b);
    };
    auto repeated = [&](size_t a, size_t b) {
        o.push_back(1);
        put(o, usize7(b - a));
        o.push_back(p[a]);
    };
    if (mode >= 0) {
        size_t k = mode ? mode : p.size();
        for (size_t i = 0; i < p.size(); i += k) scattered(i, std::min(p.size(), i + k));
    } else {
        size_t t = -mode, a = 0;
        for (size_t i = 0; i < p.size();) {
            size_t j = i;
            while (j < p.size() && p[j] == p[i]) j++;
            if (j - i >= t) { scattered(a, i); repeated(i, j); a = j; }
            i = j;
        }
        scattered(a, p.size());
    }
    return o;
}
struct BitW {
    Bytes o;
    int n = 0;
    void bits(uint32_t v, int k)
    {
        for (int i = k - 1; i >= 0; i--) {
            if (n == 0) o.push_back(0);
            if ((v >> i) & 1) o.back() |= 0x80 >> n;
            n = (n + 1) & 7;
        }
    }
    void lit(uint8_t b) { bits(1, 1); bits(b, 8); }
    void ref(int w, int l, int dist, int len) { bits(0, 1); bits(dist - 1, w); bits(len - 1, l); }
};
// maxlen: longest back-reference to use (0: literals only)
static inline Bytes enc_hs(const Bytes &p, int w, int l, int minlen, int maxlen)
{
    BitW b;
    b.bits(((w - 4) << 4) | (l - 3), 8);
    int wsz = 1 << w, lsz = 1 << l;
    if (maxlen > lsz) maxlen = lsz;
    for (size_t i = 0; i < p.size();) {
        int bl = 0, bd = 0;
        for (int d = 1; maxlen > 0 && d <= wsz; d++) {
            int k = 0;
            while (k < maxlen && i + k < p.size()) {
                int64_t src = (int64_t)i + k - d;
                uint8_t v = src < 0 ? 0 : p[src];
                if (v != p[i + k]) break;
                k++;
            }
            if (k > bl) { bl = k; bd = d; if (k == maxlen) break; }
        }
        if (bl >= minlen && bl > 0) { b.ref(w, l, bd, bl); i += bl; }
        else b.lit(p[i++]);
    }
    return b.o;
}
static inline Bytes enc_lzma(const Bytes &p, uint32_t preset = 0, uint32_t dict = 0)
{
    lzma_options_lzma opt;
    lzma_lzma_preset(&opt, preset);
    if (dict) opt.dict_size = dict;
    lzma_stream s = LZMA_STREAM_INIT;
    if (lzma_alone_encoder(&s, &opt) != LZMA_OK) abort();
    Bytes o(p.size() * 2 + 4096);
    s.next_in = p.data();
    s.avail_in = p.size();
    s.next_out = o.data();
    s.avail_out = o.size();
    if (lzma_code(&s, LZMA_FINISH) != LZMA_STREAM_END) abort();
    o.resize(o.size() - s.avail_out);
    lzma_end(&s);
    return o;
}

// A representation: compression plus encoder variant.
struct Repr { int comp; int mode; };
#define HS_MODE(w, l) (1008 + (w) * 16 + (l))
static inline Bytes compress(const Bytes &p, Repr r)
{
    switch (r.comp) {
    case C_NONE: return p;
    case C_CRLE: return enc_crle(p, r.mode);
    case C_HS:
        if (r.mode >= 1000) return enc_hs(p, (r.mode - 1008) >> 4, (r.mode - 1008) & 15, 2, 1 << ((r.mode - 1008) & 15));
        switch (r.mode) {
        case 0: return enc_hs(p, 8, 7, 3, 128);
        case 1: return enc_hs(p, 8, 7, 1, 0);
        case 2: return enc_hs(p, 8, 7, 1, 128);
        case 3: return enc_hs(p, 8, 7, 1, 2);
        default: return enc_hs(p, 8, 7, 2, 17);
        }
    default: return enc_lzma(p, r.mode < 0 ? 9 : 0, r.mode > 0 ? r.mode : (r.mode < 0 ? 1 << 16 : 4096));
    }
}
static inline Bytes seq_header(int comp, int64_t to_size)
{
    Bytes h;
    h.push_back(comp);
    put(h, vsize(to_size));
    return h;
}
static inline Bytes seq_patch(const std::vector<Rec> &recs, Repr r)
{
    size_t n = recs_size(recs);
    Bytes b = seq_header(r.comp, n);
    if (n > 0) put(b, compress(recs_payload(recs), r));
    return b;
}

// ---- in-place ------------------------------------------------------------
struct Geo { int64_t mem, seg, shift, from, to; };
static inline Bytes inp_header(int comp, const Geo &g)
{
    Bytes h;
    h.push_back(0x10 | comp);
    for (int64_t v : {g.mem, g.seg, g.shift, g.from, g.to}) put(h, vsize(v));
    return h;
}

// ---- reference decompression ----------------------------------------------
struct Plain {
    Bytes d;               // everything that can be decoded
    bool bad = false;      // decoding stopped at an error
    bool left = false;     // undecoded input is left (error or incomplete token)
    bool exotic = false;   // uses forms no encoder produces
    bool noend = false;    // end marker missing (lzma)
};
static inline Plain plain_of(int comp, const uint8_t *p, size_t n)
{
    Plain r;
    if (comp == C_NONE) {
        r.d.assign(p, p + n);
    } else if (comp == C_CRLE) {
        size_t i = 0;
        while (i < n) {
            uint8_t kind = p[i++];
            if (kind > 1) { r.bad = r.left = true; return r; }
            uint64_t v = 0;
            int k = 0;
            bool done = false;
            while (i < n) {
                uint8_t b = p[i++];
                if (k >= 4) { r.bad = r.left = true; return r; } // does not fit (28 bits)
                v |= (uint64_t)(b & 0x7f) << (7 * k++);
                if (!(b & 0x80)) { done = true; break; }
            }
            if (!done) { r.left = true; return r; }
            if (v == 0) r.exotic = true;
            if (kind == 0) {
                size_t m = std::min<uint64_t>(v, n - i);
                r.d.insert(r.d.end(), p + i, p + i + m);
                i += m;
                if (m < v) { r.left = true; return r; }
            } else {
                if (i == n) { r.left = true; return r; }
                uint64_t m = std::min<uint64_t>(v, 1 << 24);
                r.d.insert(r.d.end(), m, p[i]);
                i++;
            }
        }
    } else if (comp == C_HS) {
        if (n == 0) { r.left = true; return r; }
        int w = (p[0] >> 4) + 4, l = (p[0] & 15) + 3;
#if HEATSHRINK_DYNAMIC_ALLOC
        if (w > 15 || l >= w) { r.bad = r.left = true; return r; }
#else
        if (w != 8 || l != 7) { r.bad = r.left = true; return r; }
#endif
        size_t bit = 8, nb = n * 8;
        auto get = [&](int k, uint32_t &v) {
            if (bit + k > nb) return false;
            v = 0;
            while (k--) { v = v << 1 | ((p[bit >> 3] >> (7 - (bit & 7))) & 1); bit++; }
            return true;
        };
        while (true) {
            size_t start = bit;
            uint32_t t, a, b;
            if (!get(1, t)) break;
            if (t) {
                if (!get(8, a)) { bit = start; break; }
                r.d.push_back(a);
            } else {
                if (!get(w, a) || !get(l, b)) { bit = start; break; }
                size_t dist = a + 1, len = b + 1;
                for (size_t i = 0; i < len; i++)
                    r.d.push_back(r.d.size() >= dist ? r.d[r.d.size() - dist] : 0);
            }
        }
        // Zero padding of less than a byte is normal.
        if (nb - bit >= 8) r.left = true;
        for (size_t b = bit; b < nb; b++)
            if ((p[b >> 3] >> (7 - (b & 7))) & 1) r.left = true;
    } else {
        lzma_stream s = LZMA_STREAM_INIT;
        if (lzma_alone_decoder(&s, UINT64_MAX) != LZMA_OK) abort();
        s.next_in = p;
        s.avail_in = n;
        uint8_t buf[65536];
        lzma_ret ret = LZMA_OK;
        while (r.d.size() < (1u << 24)) {
            s.next_out = buf;
            s.avail_out = sizeof buf;
            ret = lzma_code(&s, LZMA_RUN);
            size_t m = sizeof buf - s.avail_out;
            r.d.insert(r.d.end(), buf, buf + m);
            if (ret != LZMA_OK || (m == 0 && s.avail_in == 0)) break;
        }
        r.noend = ret != LZMA_STREAM_END;
        if (ret != LZMA_OK && ret != LZMA_STREAM_END && ret != LZMA_BUF_ERROR) r.bad = r.left = true;
        if (s.avail_in > 0) r.left = true;
        lzma_end(&s);
    }
    return r;
}

enum Verdict { ACCEPT, REJECT, EITHER };
static inline const char *vname(Verdict v) { return v == ACCEPT ? "accept" : v == REJECT ? "reject" : "either"; }
struct Ref {
    Verdict v = REJECT;
    Bytes out;              // valid when v != REJECT
    int64_t to_size = 0;    // header to-size when it could be read, else 0
    std::string why;
};

// Reads a size from d at i.  0 ok, 1 ran out, 2 too long for the C library.
static inline int rd_size(const Bytes &d, size_t &i, int64_t &v, bool &exotic)
{
    if (i >= d.size()) return 1;
    uint8_t b = d[i++];
    bool neg = b & 0x40;
    uint64_t m = b & 0x3f;
    int off = 6, k = 1;
    while (b & 0x80) {
        if (i >= d.size()) return 1;
        b = d[i++];
        k++;
        if (k > 4) return 2;
        m |= (uint64_t)(b & 0x7f) << off;
        off += 7;
    }
    if (neg && m == 0) exotic = true;
    if (k > 1 && b == 0) exotic = true;
    v = neg ? -(int64_t)m : (int64_t)m;
    return 0;
}

// Reference verdict for a sequential patch.  seek semantics: absolute position
// may exceed the from-size, may not become negative (as fseek).
static inline Ref ref_seq(const Bytes &from, const Bytes &patch, bool lzma_ok = true)
{
    Ref r;
    bool either = false, dummy = false;
    if (patch.empty()) { r.why = "empty"; return r; }
    int type = (patch[0] >> 4) & 7, comp = patch[0] & 15;
    if (type != 0) { r.why = "type"; return r; }
    size_t i = 1;
    int64_t to = 0;
    int s = rd_size(patch, i, to, dummy);
    if (s) { r.why = s == 1 ? "short header" : "header overflow"; return r; }
    if (patch[1] & 0x40) { either = true; if (to < 0) to = -to; }
    if (comp != C_NONE && comp != C_CRLE && comp != C_HS && !(comp == C_LZMA && lzma_ok)) { r.why = "compression"; return r; }
    r.to_size = to;
    if (to == 0) {
        r.v = i == patch.size() && !either ? ACCEPT : EITHER;
        return r;
    }
    Plain pl = plain_of(comp, patch.data() + i, patch.size() - i);
    if (pl.exotic) either = true;
    size_t k = 0;
    int64_t v = 0;
    auto size = [&](const char *what) {
        int s = rd_size(pl.d, k, v, either);
        if (s) { r.why = std::string(what) + (s == 1 ? ": out of data" : ": overflow"); return false; }
        return true;
    };
    if (!size("dfpatch")) return r;
    if (v > 0) { r.why = "dfpatch"; return r; }
    if (v < 0) either = true;
    int64_t pos = 0;
    do {
        if (!size("diff size")) return r;
        if (v < 0 || (int64_t)r.out.size() + v > to) { r.why = "diff size"; return r; }
        for (int64_t j = 0; j < v; j++) {
            if (k >= pl.d.size()) { r.why = "diff data"; return r; }
            if (pos >= (int64_t)from.size()) { r.why = "from data"; return r; }
            r.out.push_back((uint8_t)(pl.d[k++] + from[pos++]));
        }
        if (!size("extra size")) return r;
        if (v < 0 || (int64_t)r.out.size() + v > to) { r.why = "extra size"; return r; }
        if (k + v > pl.d.size()) { r.why = "extra data"; return r; }
        r.out.insert(r.out.end(), pl.d.begin() + k, pl.d.begin() + k + v);
        k += v;
        if (!size("adjustment")) return r;
        pos += v;
        if (pos > 0x7fffffff) either = true;
        if (pos < 0) {
            if ((int64_t)r.out.size() < to) { r.why = "seek"; return r; }
            either = true;
        }
    } while ((int64_t)r.out.size() < to);
    if (comp == C_NONE && k < pl.d.size()) { r.why = "data after the last record"; return r; }
    if (k < pl.d.size() || pl.left || pl.noend || pl.bad) either = true;
    r.v = either ? EITHER : ACCEPT;
    return r;
}
