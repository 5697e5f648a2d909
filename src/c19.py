# C19: a created sequential patch applies to exactly the to-data.
import io, itertools, os
import pyrun
pyrun.load()
import detools
import gen, ref
C = pyrun.CLib()
CD = pyrun.CLib(True)
F, T, P, O = 'from', 'to', 'patch', 'out'


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def create(a, b, mm=False, **kw):
    if not mm:
        p = io.BytesIO()
        detools.create_patch(io.BytesIO(a), io.BytesIO(b), p, **kw)
        return p.getvalue()
    detools.create_patch_filenames(F, T, P, use_mmap=True, **kw)
    with open(P, 'rb') as f:
        return f.read()


def check(c, a, b, what, comps=ref.COMP, same=True, files=False, **kw):
    c.seen(a, b)
    if same or files:
        put(F, a)
        put(T, b)
    first = None
    for comp in comps:
        w = f'{what}, {comp} {kw or ""}'
        try:
            p = create(a, b, compression=comp, **kw)
            c.count(0)
            if same:
                for sa, mm in (('sais', False), ('divsufsort', True), ('sais', True)) if comp == comps[0] else (('sais', True),):
                    q = create(a, b, mm, compression=comp, suffix_array_algorithm=sa, **kw)
                    c.count(0)
                    if q != p:
                        c.fail(f'{w}: the patch with {sa}{" and mmap" if mm else ""} differs: {q[:60].hex()} from {p[:60].hex()}')
            out = io.BytesIO()
            n = detools.apply_patch(io.BytesIO(a), io.BytesIO(p), out)
        except Exception as e:
            c.fail(f'{w}: {type(e).__name__} {e}')
        if out.getvalue() != b or n != len(b):
            c.fail(f'{w}: applied gives {n}, {out.getvalue()[:80].hex()}; patch {p[:100].hex()}')
        if files:
            put(P, p)
            n = detools.apply_patch_filenames(F, P, O)
            with open(O, 'rb') as f:
                o = f.read()
            if n != len(b) or o != b:
                c.fail(f'{w}: applied to files gives {n}, {o[:80].hex()}')
        try:
            r, recs = ref.sequential(a, p)
        except (ref.Bad, ref.Odd) as e:
            c.fail(f'{w}: the patch is not valid: {e}; {p[:100].hex()}')
        if r != b:
            c.fail(f'{w}: the patch means {r[:80].hex()}')
        if first is None:
            first = recs
        elif recs != first:
            c.fail(f'{w}: the records differ from those with {comps[0]}')
        if comp not in ref.IN_C:
            continue
        own = comp == 'heatshrink' and (kw.get('heatshrink_window_sz2', 8), kw.get('heatshrink_lookahead_sz2', 7)) != (8, 7)
        for lib in (CD,) if own else (C, CD) if comp == 'heatshrink' else (C,):
            r = lib.apply(a, p)
            c.count(4)
            if r != b:
                c.fail(f'{w}: the C library gives {r if isinstance(r, int) else r[:80].hex()}')


def enumerate_(c):
    th = c.thorough
    light = 'LD_PRELOAD' in os.environ and not th
    small = list(gen.strings(b'\x00\x01', 7 if th else 5 if light else 6))
    for a in small:
        if not c.next():
            continue
        c.desc(f'from {a.hex()}, all to-data over two letters')
        for b in small:
            check(c, a, b, f'from {a.hex()} to {b.hex()}', ref.COMP if len(a) + len(b) < 7 else ['none', 'crle'], True)
    for a in gen.strings(b'\x00\x7f\xff', 4 if th else 3):
        if not c.next():
            continue
        c.desc(f'from {a.hex()}, all to-data over three letters')
        for b in gen.strings(b'\x00\x80\xff', 4 if th else 3):
            check(c, a, b, f'from {a.hex()} to {b.hex()}', ['none', 'heatshrink'], False)
    # one letter in the from-data changes over a longer context: matches, near matches, overlaps
    for n in (20, 60, 200, 1000) + ((5000,) if th else ()):
        for name, base in gen.bases(n):
            for k, (what, b) in enumerate(gen.scripts(base, 4 if th and n == 60 else 3 if not light else 2)):
                if not c.next():
                    continue
                c.desc(f'{n} bytes {name} to {what}')
                check(c, base, b, f'{n} bytes {name} to {what}', ref.COMP if k % 7 == 0 or k < 120 else ['none', 'heatshrink'], k % 5 == 0, k % 11 == 0)
                if k == 57:
                    c.sample(f'{n} bytes {name} to {what}')
    # every pair of edits at all positions of a short text
    base = gen.lcg(40, 5)
    for i in range(41):
        if not c.next():
            continue
        c.desc(f'edits at {i}')
        for j in range(i, 41):
            for mid in (base[i:j], bytes(x + 1 & 255 for x in base[i:j]), b''):
                for x, y in ((b'', b'\x11'), (b'\x22' * 3, b''), (b'\x33' * 9, base[:9])):
                    check(c, base, base[:i] + x + mid + y + base[j:], f'40 bytes, edits at {i} and {j}', ['none'], False)
    # long fuzzy matches: the overlap of a forward and a backward extension
    big = gen.lcg(300, 9)
    for gap in range(0, 40):
        for rate in (2, 3, 4, 5, 9):
            if not c.next():
                continue
            c.desc(f'fuzzy matches, gap {gap} rate {rate}')
            for skip in (0, 1, 7, 30):
                m = bytearray(big[:150] + gen.lcg(gap, 3) + big[150 + skip:])
                for at in range(100, 200 + gap, rate):
                    if at < len(m):
                        m[at] ^= 0x40
                check(c, big, bytes(m), f'gap {gap} rate {rate} skip {skip}', ['none', 'crle'], False)
                check(c, bytes(m), big, f'gap {gap} rate {rate} skip {skip} back', ['none'], False)
    # a stretch between two parts of a match that is found elsewhere and is like what was there
    for na, nb, nc in itertools.product((0, 5, 40, 150), (12, 24, 60), (12, 40, 200)):
        if not c.next():
            continue
        c.desc(f'inner match, {na}, {nb} and {nc} bytes')
        A, B, C_, D = gen.lcg(na, 41), gen.lcg(nb, 42), gen.lcg(nc, 43), gen.lcg(50, 44)
        for rate in (1, 2, 3, 4, 6, 9):
            B2 = bytearray(B)
            for at in range(rate // 2, nb, rate):
                B2[at] ^= 0x21
            B2 = bytes(B2)
            for a in (A + B + C_ + D + B2 + D[:9], D + B2 + A + B + C_):
                for b in (A + B2 + C_, A + B2 + C_ + B2 + C_, A + B + C_ + A + B2 + C_, B2 + C_ + A + B2, A + B2 + B2 + C_):
                    check(c, a, b, f'inner match, {na}, {nb} and {nc} bytes, rate {rate}', ['none'], False)
    # sizes around the buffers of the appliers: 4096 (Python), 512 and 128 (C)
    sizes = [x + d for x in (128, 512, 4096, 8192) for d in range(-14, 6)]
    for n in sizes:
        if not c.next():
            continue
        c.desc(f'sizes around {n}')
        a, b = gen.lcg(n, 11), gen.lcg(n, 12)
        check(c, b'', b, f'{n} new bytes', ref.COMP, False)
        check(c, a, a, f'{n} same bytes', ref.COMP, n % 4 == 0, True if n % 4 == 0 else False)
        check(c, a, bytes(x + 1 & 255 for x in a), f'{n} bytes plus one', ['none', 'crle', 'lzma', 'bz2'], False)
        check(c, a, a[:n // 2] + b + a[n // 2:], f'{n} bytes in the middle', ref.COMP, False)
        check(c, a + b, b + a, f'{n} bytes swapped', ['none', 'heatshrink', 'lz4'], False)
    # compressed sizes around the blocks of the applier: the end of the stream falls in every place
    for k in range(1, 5 if th else 3):
        for n in range(3590 * k, 4130 * k):
            for kind in range(2 if light else 3):
                if kind == 2 and k > 1 and not th or not c.next():
                    continue
                c.desc(f'end of stream, {n} bytes, kind {kind}')
                b = gen.lcg(n, 7 + kind)
                if kind == 1:
                    b = b[:-9] + bytes(9)
                check(c, b[:n // 2] if kind == 2 else b'', b, f'{n} bytes, kind {kind}', ['lzma', 'bz2', 'lz4'] if n % 16 else ref.COMP, False)
    for n in (20000, 100000):
        for k in range(6):
            if not c.next():
                continue
            c.desc(f'{n} bytes, kind {k}')
            a = gen.lcg(n, 20 + k, (255, 15)[k & 1])
            m = bytearray(a[n // 3:] + gen.lcg(700, 4) + a[:n // 2])
            for at in range(0, len(m), 501 + k):
                m[at] ^= 5
            check(c, a, bytes(m), f'{n} bytes, kind {k}', ref.COMP, True, True)
    # sizes, places and distances that need more than 16 bits
    for n in (65535, 65536, 65537, 131071, 131072, 131073, 196608, 262144, 300001, 1100000):
        for k in range(6):
            if (light and k in (1, 4)) or (n > 300000 and k not in (2, 5) and not th) or not c.next():
                continue
            c.desc(f'far, {n} bytes, kind {k}')
            a = gen.lcg(n, 31)
            m = bytearray(a)
            for at in range(9, n, 40):
                m[at] ^= 5
            b = (gen.lcg(n, 32), a, a[n // 2:] + a[:n // 2], a[:n // 2] + gen.lcg(70000, 33) + a[n // 2:], bytes(m), a[-5000:] + a[:5000] + a[n // 2:][:5000] + a[-9000:-4000])[k]
            check(c, b'' if k == 0 else a, b, f'far, {n} bytes, kind {k}', ['none', 'lzma', 'heatshrink'] if k in (0, 4) and n < 200000 else ['none'], k in (1, 2), k == 3)
    # all heatshrink settings
    a = gen.lcg(700, 3, 15)
    for w in range(4, 16):
        for l in range(3, w):
            if not c.next():
                continue
            c.desc(f'heatshrink {w} {l}')
            for b in (b'', b'\x01', a, a[100:] + a[:300] + bytes(400) + gen.lcg(300, 8)):
                check(c, a, b, f'heatshrink {w} {l}, {len(b)} bytes', ['heatshrink'], False, heatshrink_window_sz2=w, heatshrink_lookahead_sz2=l)


pyrun.main(enumerate_)
