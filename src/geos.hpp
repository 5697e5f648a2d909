// Enumeration of in-place geometries and contents.
#pragma once
#include "env.hpp"
#include "inpmodel.hpp"

static inline Bytes gmk(size_t n, uint32_t s, int kind = 0)
{
    Bytes b(n);
    for (auto &x : b) { s = s * 1664525u + 1013904223u; x = kind ? (uint8_t)(s >> 30) : s >> 24; }
    return b;
}
static inline std::string gname(const Geo &g, int style, Repr r)
{
    return strf("mem %lld seg %lld shift %lld from %lld to %lld style %d %s/%d", (long long)g.mem, (long long)g.seg,
                (long long)g.shift, (long long)g.from, (long long)g.to, style, cname(r.comp), r.mode);
}
// All geometries with the given segment size and number of segments; from and to
// run over all values, or over the interesting ones when the memory is large.
template <class F>
static inline void geos(int64_t seg, int64_t nseg, bool all, F f)
{
    int64_t mem = seg * nseg;
    std::vector<int64_t> sizes;
    if (all) for (int64_t i = 0; i <= mem; i++) sizes.push_back(i);
    else {
        std::set<int64_t> z = {0, 1, mem, mem - 1};
        for (int64_t k = 1; k <= nseg; k++) for (int64_t d : {-1, 0, 1}) if (k * seg + d <= mem) z.insert(k * seg + d);
        if (seg > 128) for (int64_t v : {127, 128, 129}) if (v <= mem) z.insert(v);
        sizes.assign(z.begin(), z.end());
    }
    for (int64_t shift = 0; shift <= mem; shift += seg)
        for (int64_t from : sizes)
            for (int64_t to : sizes) f(Geo{mem, seg, shift, from, to});
}
// Contents of memory and to-data.
static inline void contents(const Geo &g, int kind, Bytes &mem, Bytes &to)
{
    if (kind == 0) { mem = gmk(g.mem, 5); to = gmk(g.to, 6); }
    else if (kind == 1) {            // to-data is from-data moved by one, little changed
        mem = gmk(g.mem, 5, 1);
        to.clear();
        for (int64_t i = 0; i < g.to; i++) to.push_back(g.from ? mem[(i + 1) % g.from] : 7);
        if (g.to) to[g.to / 2]++;
    } else { mem = Bytes(g.mem, 0xff); to = Bytes(g.to, 0xff); if (g.to) to[g.to - 1] = 0; for (int64_t i = 0; i < g.from; i++) mem[i] = i; }
}
// Geometries with sizes, addresses and step numbers beyond 8, 12 and 16 bits.
static inline std::vector<Geo> far_geos()
{
    return {{262144, 65536, 65536, 131000, 190000}, {210000, 70000, 70000, 69999, 140001}, {393216, 131072, 131072, 131072, 262143},
            {300000, 100000, 0, 300000, 250000}, {81920, 4096, 8192, 70001, 73000}, {98304, 8192, 16384, 66000, 98304},
            {163840, 4096, 81920, 81000, 163000}, {1200, 4, 8, 1190, 1195}, {66100, 50, 150, 65800, 65990}, {67000, 1, 2, 66990, 66998},
            {4194304, 1048576, 1048576, 3000000, 2097153}};
}
