# C20: a created in-place patch leaves exactly the to-data at the start of the memory.
import io, itertools
import pyrun
pyrun.load()
import detools
import gen, ref
C = pyrun.CLib()
CD = pyrun.CLib(True)


def create(a, b, **kw):
    p = io.BytesIO()
    detools.create_patch(io.BytesIO(a), io.BytesIO(b), p, patch_type='in-place', **kw)
    return p.getvalue()


def check(c, a, b, ms, ss, mn, comps, what='', spare=(0, 5), **kw):
    """Creates and applies one patch; kw may hold further options."""
    w = f'{what} memory {ms} segment {ss} minimum shift {mn} from {len(a)} to {len(b)} {kw or ""}'
    fits = ss > 0 and ms >= 0 and ms % ss == 0 and (mn is None or mn % ss == 0) and len(a) <= ms and len(b) <= ms and (mn is None or mn <= ms)
    c.seen(a, b, ms, ss, mn)
    sizes = {}
    for comp in comps:
        c.count(0)
        try:
            p = create(a, b, compression=comp, memory_size=ms, segment_size=ss, minimum_shift_size=mn, **kw)
        except Exception as e:
            if fits and mn != 0 and (mn is None or mn > 0):
                c.fail(f'{w}, {comp}: refused: {type(e).__name__} {e}')
            c.count(5)
            continue
        c.count(4)
        comp2, m2, s2, sh, f2, t2, r = ref.in_place_header(p)
        if (comp2, m2, s2, f2, t2) != (comp, ms, ss, len(a), len(b)):
            c.fail(f'{w}, {comp}: the header says {comp2, m2, s2, f2, t2}')
        if not (0 <= sh <= ms and sh % ss == 0) or (mn is not None and sh < mn):
            c.fail(f'{w}, {comp}: shift size {sh}')
        for extra in spare:
            mem = a + gen.lcg(ms - len(a) + extra, 31)
            f = io.BytesIO(mem)
            try:
                n = detools.apply_patch_in_place(f, io.BytesIO(p))
            except Exception as e:
                c.fail(f'{w}, {comp}: accepted, but applying it says {type(e).__name__} {e}; patch {p[:100].hex()}')
            m = f.getvalue()
            if n != len(b) or m[:len(b)] != b:
                c.fail(f'{w}, {comp}: {n}, memory {m[:len(b)][:80].hex()} instead of {b[:80].hex()}; patch {p[:100].hex()}')
            if len(m) != len(mem) or m[ms:] != mem[ms:]:
                c.fail(f'{w}, {comp}: memory after the update\'s {ms} bytes was changed')
            try:
                rm, segs = ref.in_place(mem, p)
            except (ref.Bad, ref.Odd) as e:
                c.fail(f'{w}, {comp}: the patch is not valid: {e}; {p[:100].hex()}')
            if rm[:len(b)] != b:
                c.fail(f'{w}, {comp}: the patch means {rm[:len(b)].hex()}')
            for lib in () if comp not in ref.IN_C else (C, CD) if comp == 'heatshrink' else (C,):
                res, m = lib.in_place(mem, p)
                c.count(3)
                if res != len(b) or m[:len(b)] != b or m[ms:] != mem[ms:]:
                    c.fail(f'{w}, {comp}: the C library gives {res}, memory {m[:len(b)][:80].hex()} instead of {b[:80].hex()}; patch {p[:100].hex()}')


def contents(a, b):
    """Contents with the from-data and to-data of given lengths."""
    x = gen.lcg(max(a, b) + 8, 7)
    yield x[:a], gen.lcg(b, 8)
    yield x[:a], x[3:][:b]                      # moved
    yield bytes(a), bytes(b)
    y = bytearray((x * 2)[:b])
    for i in range(0, b, 5):
        y[i] ^= 1
    yield x[:a], bytes(y)


def enumerate_(c):
    th = c.thorough
    for ss, k in itertools.product((1, 2, 3, 4, 8) if not th else (1, 2, 3, 4, 5, 7, 8), range(0, 5 if not th else 7)):
        ms = ss * k
        for mn in [None] + [i * ss for i in range(0, k + 2)]:
            for a in range(0, ms + 3):
                if not c.next():
                    continue
                c.desc(f'segment {ss}, {k} segments, minimum shift {mn}, from-data of {a}')
                for b in range(0, ms + 3):
                    for x, y in contents(a, b):
                        check(c, x, y, ms, ss, mn, ['none'] if (a + b) % 5 else ref.COMP)
                if ss == 3 and k == 3:
                    c.sample(f'segment {ss}, {k} segments, minimum shift {mn}, from-data of {a}, all to-data sizes')
    # geometries that do not fit
    for ms in range(-4, 14):
        for ss in range(-2, 6):
            if not c.next():
                continue
            c.desc(f'memory {ms} segment {ss}')
            for mn in (None, *range(-3, 16)):
                for a, b in ((0, 0), (1, 1), (4, 3), (3, 8), (12, 12)):
                    check(c, gen.lcg(a, 1), gen.lcg(b, 2), ms, ss, mn, ['none', 'crle'])
    # larger segments
    for ss, k in ((16, 4), (64, 3), (100, 5), (128, 4), (129, 3), (500, 2), (4096, 3), (5000, 2)):
        ms = ss * k
        for mn in (None, ss, 2 * ss, ms):
            if mn is not None and mn > ms:
                continue
            for a in sorted({0, 1, ss - 1, ss, ss + 1, 2 * ss, ms - ss, ms - 1, ms}):
                if not c.next():
                    continue
                c.desc(f'segment {ss}, {k} segments, minimum shift {mn}, from-data of {a}')
                for b in sorted({1, ss - 1, ss, ss + 1, 2 * ss, ms - 1, ms}):
                    for i, (x, y) in enumerate(contents(a, b)):
                        if ss > 200 and i == 2:
                            continue
                        check(c, x, y, ms, ss, mn, ref.COMP if i in (1, 3) and ss < 4000 else ['none', 'heatshrink'], spare=(0,))
    # sizes and addresses that need more than 16 bits
    for ss, k in ((65536, 4), (70000, 3), (131072, 2), (4096, 40), (100, 700)):
        ms = ss * k
        for mn in (None, ms // ss // 2 * ss):
            for a, b in ((70001, 131073), (131072, ms), (ms - ss, 70000), (ms, ms - 1), (ms // 2, ms // 2 + 5)):
                if max(a, b) > ms or not c.next():
                    continue
                c.desc(f'segment {ss}, {k} segments, minimum shift {mn}, from-data of {a}, to-data of {b}')
                for i, (x, y) in enumerate(contents(a, b)):
                    if i in (0, 1):
                        check(c, x, y, ms, ss, mn, ['none', 'heatshrink'] if i and ss != 100 else ['none'], spare=(0,))
    # scripts of pieces
    for ss, k in ((32, 8), (64, 10)):
        for name, base in gen.bases(ss * k // 3):
            for what, b in gen.scripts(base, 2):
                if len(b) > ss * k or not c.next():
                    continue
                c.desc(f'{name} {what} segment {ss}')
                for mn in (None, ss, 3 * ss):
                    check(c, base, b, ss * k, ss, mn, ['none', 'crle', 'heatshrink', 'bz2'], f'{name} to {what}', (0,))
    # compressed sizes around the blocks of the applier
    for n in range(3560, 4130, 1 if th else 3):
        if not c.next():
            continue
        c.desc(f'end of stream, {n} bytes')
        check(c, b'', gen.lcg(n, 7), 5120, 1024, None, ['lzma', 'bz2', 'lz4', 'zstd', 'crle'], f'{n} new bytes', (0,))
    # options that must not matter
    a, b = gen.lcg(200, 3), gen.lcg(30, 4) + gen.lcg(200, 3)[20:150]
    if c.next():
        c.desc('options')
        p = create(a, b, compression='none', memory_size=320, segment_size=64, use_mmap=False)
        for kw in (dict(suffix_array_algorithm='sais'), dict(use_mmap=True), dict(use_mmap=False, suffix_array_algorithm='sais')):
            if create(a, b, compression='none', memory_size=320, segment_size=64, **kw) != p:
                c.fail(f'another patch with {kw}')
    for w in range(4, 16):
        for l in range(3, w):
            if not c.next():
                continue
            c.desc(f'heatshrink {w} {l}')
            p = create(a, b, compression='heatshrink', memory_size=320, segment_size=64, heatshrink_window_sz2=w, heatshrink_lookahead_sz2=l)
            f = io.BytesIO(a + bytes(120))
            detools.apply_patch_in_place(f, io.BytesIO(p))
            c.count(0)
            if f.getvalue()[:len(b)] != b or ref.in_place(a + bytes(120), p)[0][:len(b)] != b:
                c.fail(f'heatshrink {w} {l}: wrong memory')
            res, m = CD.in_place(a + bytes(120), p)
            c.count(3)
            if res != len(b) or m[:len(b)] != b:
                c.fail(f'heatshrink {w} {l}: the C library gives {res}')
            if (w, l) != (8, 7) and C.in_place(a + bytes(120), p)[0] >= 0:
                c.fail(f'heatshrink {w} {l}: accepted by the C library built for 8 and 7')


pyrun.main(enumerate_)
