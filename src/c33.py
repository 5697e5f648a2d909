# C33: patches are small: data the from-data has is not stored again.
import bz2, io, itertools
import pyrun
pyrun.load()
import detools
import gen, ref
COMP = ref.COMP
OPTS = [{}, dict(suffix_array_algorithm='sais'), dict(use_mmap=False), dict(patch_type='bsdiff'), dict(patch_type='bsdiff', suffix_array_algorithm='sais', use_mmap=False)]


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def create(a, b, files=False, **kw):
    if files:
        put('f', a)
        put('t', b)
        detools.create_patch_filenames('f', 't', 'p', **kw)
        return open('p', 'rb').read()
    p = io.BytesIO()
    detools.create_patch(io.BytesIO(a), io.BytesIO(b), p, **kw)
    return p.getvalue()


def cost(recs):
    """Bytes of the to-data that the from-data does not give, and the number of records."""
    return sum(len(d) - d.count(0) + len(e) for d, e, _ in recs), len(recs)


def bsdiff_cost(p):
    n, m = ref.off(p[8:16]), ref.off(p[16:24])
    ctrl, diff, extra = (bz2.decompress(x) for x in (p[32:32 + n], p[32 + n:32 + n + m], p[32 + n + m:]))
    return len(diff) - diff.count(0) + len(extra), len(ctrl) // 24


def check(c, a, b, new, pieces, what, opts=OPTS[:1], files=False):
    """The to-data b is new bytes and at most the given number of pieces of the from-data a."""
    c.seen(a, b)
    for kw in opts:
        c.count(0)
        bs = 'patch_type' in kw
        p = create(a, b, files, **kw) if bs else create(a, b, files, compression='none', **kw)
        if bs:
            n, r = bsdiff_cost(p)
        else:
            d = ref.describe(p)
            recs = d['segments'][0][2] if d['segments'] else []
            n, r = cost(recs)
        if n > new:
            c.fail(f'{what} {kw}: {n} bytes are stored though only {new} are new; from {a[:300].hex()} to {b[:300].hex()}')
        if r > pieces + 1:
            c.fail(f'{what} {kw}: {r} records for {pieces} pieces; from {a[:300].hex()} to {b[:300].hex()}')
        if not bs:
            c.count(4, r)
            # the rest of the patch is the header and the sizes of the records
            if len(p) > 12 + len(b) + 15 * r:
                c.fail(f'{what} {kw}: {len(p)} bytes for {len(b)} bytes in {r} records')


def check_in_place(c, a, b, ms, ss, mn, what):
    """Segments all of whose bytes come from one still available stretch of the from-data cost nothing."""
    c.seen(a, b, ms, ss, mn)
    c.count(0)
    p = create(a, b, patch_type='in-place', compression='none', memory_size=ms, segment_size=ss, minimum_shift_size=mn)
    d = ref.describe(p)
    # as much memory as there is, is used to keep from-data
    free = (ms + ss - 1) // ss - (len(a) + ss - 1) // ss
    want = max(free * ss, min(2 * ss, ms) if mn is None else mn)
    if d['shift'] != want:
        c.fail(f'{what}: shift size {d["shift"]}, not {want}')
    kept = a[:ms - want]
    for k, (_, _, recs) in enumerate(d['segments']):
        part = b[k * ss:][:ss]
        there = kept[max((k + 1) * ss - want, 0):]
        n, r = cost(recs)
        if part in there and (len(part) >= 32 or n > len(part)):
            c.count(5)
            if n or r > 2:
                c.fail(f'{what}: segment {k} is in the from-data still there, but {n} bytes are stored in {r} records')
        elif n > len(part):
            c.fail(f'{what}: segment {k} of {len(part)} bytes stores {n}')


def compress(c, data, limit, comp, what, **kw):
    c.seen(data, comp, *kw.values())
    c.count(0)
    c.count(6)
    p = create(b'', data, compression=comp, **kw)
    if len(p) > limit:
        c.fail(f'{what}, {comp} {kw}: {len(p)} bytes, more than {limit}')


def enumerate_(c):
    th = c.thorough
    # identical data
    for letters, depth in ((b'\x00\x01', 13 if th else 11), (b'abc', 8 if th else 7)):
        for i, a in enumerate(gen.strings(letters, depth)):
            if not c.next():
                continue
            c.desc(f'identical data {a.hex()}')
            check(c, a, a, 0, 0 if not a else 1, 'identical data', OPTS if i % 16 == 0 else OPTS[:1], i % 64 == 0)
    for n in [*range(0, 300, 1 if th else 7), 511, 512, 513, 4095, 4096, 4097, 40000, 70000, 140000]:
        for name, a in gen.bases(n):
            if not c.next():
                continue
            c.desc(f'identical data, {n} bytes {name}')
            check(c, a, a, 0, 1, f'identical data, {name}', OPTS, True)
    for n in (100, 300, 5000, 70000, 140000):
        for k in range(4):
            for at in (0, n // 2, n - 1):
                if not c.next():
                    continue
                a = bytearray((b'\x00', b'\xff', b'\x01\x02', bytes(range(200)))[k] * n)[:n]
                a[at] = (255, 0, 0, 255)[k]
                c.desc(f'identical data, {n} bytes, repetition {k} broken at {at}')
                check(c, bytes(a), bytes(a), 0, 1, f'identical data, repetition {k} broken at {at}', OPTS[:1], True)
                if at == n - 1:
                    check(c, bytes(a), gen.lcg(51, 9) + bytes(a), 51, 1, f'identical data after 51 bytes, repetition {k} broken at {at}', OPTS[:1])
    c.sample('identical data: all strings of up to 11 bytes over two letters')
    # all sequences of pieces and new bytes
    base = gen.lcg(96, 5)
    p = [base[:32], base[32:64], base[64:], base[16:48], gen.lcg(1, 8), gen.lcg(7, 9), gen.lcg(40, 10)]
    for head in itertools.product(range(7), repeat=2):
        for tail in itertools.chain.from_iterable(itertools.product(range(7), repeat=k) for k in range(5 if th else 4)):
            if not c.next():
                continue
            s = head + tail
            c.desc(f'pieces {s}')
            b = b''.join(p[i] for i in s)
            check(c, base, b, sum(len(p[i]) for i in s if i > 3), sum(i < 4 for i in s), f'pieces {s}', OPTS if c.i % 8 == 0 else OPTS[:1], c.i % 50 == 0)
    c.sample('all sequences of up to 5 of 4 pieces of 32 bytes and 3 strings of new bytes')
    # the pieces at every position
    base = gen.lcg(300, 15)
    for i in range(0, 269, 1 if th else 2):
        if not c.next():
            continue
        c.desc(f'pieces from {i}')
        for j in range(0, 269, 3 if th else 10):
            for x in (b'', b'\x01', gen.lcg(20, 3)):
                check(c, base, base[i:i + 32] + x + base[j:j + 32], len(x), 2, f'pieces from {i} and {j}')
    # insertions and deletions
    base = gen.lcg(200, 5)
    for i in range(32, 169):
        if not c.next():
            continue
        c.desc(f'insertions and deletions at {i}')
        for ins in (0, 1, 2, 3, 8, 9, 20, 100):
            for del_ in (0, 1, 2, 8, 9, 20, 100):
                if i + del_ > 168 or ins == del_:
                    continue
                check(c, base, base[:i] + gen.lcg(ins, 77) + base[i + del_:], ins, 2, f'{ins} bytes for {del_} at {i}', OPTS if c.i % 8 == 0 and ins in (0, 9) else OPTS[:1])
    # changed bytes
    base = gen.lcg(160, 5)
    ok = lambda x: x >= 32
    for i in range(32, 128):
        if not c.next():
            continue
        c.desc(f'changed bytes at {i}')
        for j in range(i, 128):
            for k in {j, j + 1, 127} if th else {j}:
                t = bytearray(base)
                for x in {i, j, k}:
                    t[x] ^= 0x55
                check(c, base, bytes(t), len({i, j, k}), 1, f'changed bytes {i}, {j}, {k}')
    # many pieces
    for n, step in ((20000, 33), (60000, 40), (60000, 64), (60000, 200)) + (((1 << 20, 64),) if th else ()):
        for order in range(4):
            if not c.next():
                continue
            c.desc(f'{n} bytes in pieces of {step}, order {order}')
            a = gen.lcg(n, 21)
            parts = [a[i:i + step] for i in range(0, n - n % step, step)]
            parts = (parts[::-1], parts[1::2] + parts[::2], [x for i in range(7) for x in parts[i::7]], parts[::3] * 3)[order]
            check(c, a, b''.join(parts), 0, len(parts), f'{n} bytes in pieces of {step}, order {order}', OPTS if n < 1 << 20 else OPTS[:1])
            new = b''.join(x + bytes([i & 255, i >> 8]) for i, x in enumerate(parts))
            check(c, a, new, 2 * len(parts), len(parts), f'{n} bytes in pieces of {step} with new bytes between, order {order}')
    for n in (65536, 65537, 100000, 131072, 131073, 200000, 262144):
        for order in range(5):
            if not c.next():
                continue
            c.desc(f'{n} bytes, order {order}')
            a = gen.lcg(n, 23)
            parts = ([a], [a[n // 2:], a[:n // 2]], [a[-500:], a[:500], a[n // 2:][:500], a[-1000:-600]], [a[:n // 2], a[n // 2 + 1000:]], [a[:n // 2], a[:1000] + a[1000:1100], a[n // 2:]])[order]
            check(c, a, b''.join(parts), 0, len(parts), f'{n} bytes, order {order}', OPTS[:2] + OPTS[3:4])
    # in-place
    for ss, k in ((32, 4), (32, 8), (64, 5), (128, 4), (128, 6)):
        ms = ss * k
        for mn in (None, *range(ss, ms + 1, ss)):
            for n in sorted({1, ss - 1, ss, ss + 1, ms // 2, ms - ss, ms - 1, ms}):
                if not c.next():
                    continue
                c.desc(f'in-place, segment {ss}, {k} segments, minimum shift {mn}, from-data of {n}')
                a = gen.lcg(n, 5)
                tos = [a, a[ss // 2:], gen.lcg(ss // 2, 8) + a, a[::-1]]
                tos += [b''.join(a[i * ss:][:ss] for i in o) for o in itertools.permutations(range(min((n + ss - 1) // ss, 4)))]
                for i, b in enumerate(tos):
                    check_in_place(c, a, b[:ms], ms, ss, mn, f'in-place, segment {ss}, {k} segments, minimum shift {mn}, from-data of {n}, to-data {i}')
    # every compression compresses what is easy to compress, and adds little to what is not
    for n in (1, 10, 100, 1000, 10000, 100000):
        for comp in COMP:
            if not c.next():
                continue
            c.desc(f'{comp}, {n} bytes')
            add = {'none': 25, 'crle': 40, 'heatshrink': 30, 'lzma': 100, 'bz2': 120 if n < 200 else 400, 'zstd': 60, 'lz4': 80}[comp]
            grow = {'none': 1, 'crle': 1.01, 'heatshrink': 1.13, 'lzma': 1.03, 'bz2': 1.03, 'zstd': 1.01, 'lz4': 1.01}[comp]
            shrink = {'none': 1, 'crle': 0.0001, 'heatshrink': 16 / 8 / 100, 'lzma': 0.002, 'bz2': 0.002, 'zstd': 0.002, 'lz4': 0.01}[comp]
            compress(c, gen.lcg(n, 3), n * grow + add, comp, f'{n} random bytes')
            compress(c, bytes(n), n * shrink + add, comp, f'{n} zeros')
            if comp not in ('none', 'crle'):
                compress(c, (gen.lcg(100, 3) * (n // 100 + 1))[:n], min(n, 100) * grow + n * max(shrink, 0.02) + add, comp, f'{n} bytes of period 100')
            if comp == 'crle':
                compress(c, b''.join(bytes([i & 255]) * 100 for i in range(n // 100)), n * 0.06 + add, comp, f'{n} bytes in runs of 100')
    # the window and the length of a match of heatshrink are used in full
    for w in range(4, 14 if th else 12):
        for l in range(3, w):
            if not c.next():
                continue
            c.desc(f'heatshrink {w} {l}')
            per = (1 << w) - 2
            a = gen.lcg(per, w)
            token = 1 + w + l
            compress(c, a + a, 30 + (9 * per + token * -(-per // (1 << l))) // 8, 'heatshrink', f'data repeated after {per} bytes', heatshrink_window_sz2=w, heatshrink_lookahead_sz2=l)
            compress(c, bytes(4000), 30 + token * -(-4000 // (1 << l)) // 8, 'heatshrink', '4000 zeros', heatshrink_window_sz2=w, heatshrink_lookahead_sz2=l)


pyrun.main(enumerate_)
