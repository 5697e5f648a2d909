# C23: damaged patches are refused by the Python appliers, or applied exactly as the format says.
import bz2, io, itertools, struct
import pyrun
pyrun.load()
import detools
import gen, ref
size = ref.size
ACCEPT, REFUSE, EITHER = 4, 5, 6


def judge(c, kind, a, p, what, files=False):
    """Applies patch p to from-data (or memory) a."""
    c.count(0)
    try:
        if kind == 'sequential':
            want = ref.sequential(a, p)[0]
            n = len(want)
        elif kind == 'bsdiff':
            want = ref.bsdiff(a, p)[0]
            n = len(want)
        else:
            mem, _ = ref.in_place(a, p)
            n = ref.in_place_header(p)[5]
            want = mem[:n]
    except ref.Bad as e:
        want, why = None, str(e)
    except (ref.Odd, RecursionError, MemoryError) as e:
        want, why = 'either', ''
    if want is None:
        c.seen(kind, a, p)
    c.count(EITHER if want == 'either' else REFUSE if want is None else ACCEPT)
    for way in (0, 1) if files else (0,):
        out = io.BytesIO()
        try:
            if kind == 'in-place':
                f = io.BytesIO(a)
                if way:
                    put('m', a)
                    put('p', p)
                    r = detools.apply_patch_in_place_filenames('m', 'p')
                    got = open('m', 'rb').read()
                else:
                    r = detools.apply_patch_in_place(f, io.BytesIO(p))
                    got = f.getvalue()
                got = got[:max(r, 0)]
            else:
                f = getattr(detools, ('apply_patch', 'apply_patch_filenames')[way] if kind == 'sequential' else ('apply_patch_bsdiff', 'apply_patch_bsdiff_filenames')[way])
                if way:
                    put('f', a)
                    put('p', p)
                    r = f('f', 'p', 'o')
                    got = open('o', 'rb').read()
                else:
                    r = f(io.BytesIO(a), io.BytesIO(p), out)
                    got = out.getvalue()
        except Exception:
            continue
        if want == 'either':
            continue
        if want is None:
            c.fail(f'{what}: accepted with {r}, {got[:60].hex()}, but it is not valid: {why}\nfrom {a[:100].hex()} patch {p[:300].hex()}')
        if r != n or got != want:
            c.fail(f'{what}: gives {r}, {got[:60].hex()} instead of {n}, {want[:60].hex()}\nfrom {a[:100].hex()} patch {p[:300].hex()}')


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def pack(comp, payload):
    """Compresses with the repository's own compressors."""
    from detools.create import create_compressor
    z = create_compressor(comp, 8, 7)
    return z.compress(payload) + z.flush()


def damage(c, kind, a, p, name, values, files=False):
    """All truncations, substitutions, insertions, deletions of patch p."""
    n = len(p)
    if c.next():
        c.desc(f'{name}: truncations')
        for i in range(n):
            judge(c, kind, a, p[:i], f'{name}, first {i} of {n} bytes', True)
        for tail in (b'\0', b'\xff', b'\0' * 9, p[-1:], p):
            judge(c, kind, a, p + tail, f'{name} and {len(tail)} bytes more', True)
    for i in range(n):
        if not c.next():
            continue
        c.desc(f'{name}: damage at {i}')
        for v in values:
            if v != p[i]:
                judge(c, kind, a, p[:i] + bytes([v]) + p[i + 1:], f'{name}, byte {i} is {v:02x}', v % 37 == 0)
        for v in (0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff, p[i]):
            judge(c, kind, a, p[:i] + bytes([v]) + p[i:], f'{name}, {v:02x} inserted at {i}')
        for k in range(1, 9):
            judge(c, kind, a, p[:i] + p[i + k:], f'{name}, {k} bytes deleted at {i}', k == 1)
        for k in range(i + 2, min(n, i + 9)):
            judge(c, kind, a, p[:i] + p[i:k][::-1] + p[k:], f'{name}, bytes {i} to {k} reversed')


def flips(c, kind, a, p, name, step):
    """Pairs of bit flips."""
    for i in range(0, len(p)):
        if not c.next():
            continue
        c.desc(f'{name}: two damaged bytes, first at {i}')
        for j in range(i + 1, len(p), step):
            for x in (1, 0x40, 0x80, 0xff):
                for y in (1, 0x40, 0x80, 0xff):
                    q = bytearray(p)
                    q[i] ^= x
                    q[j] ^= y
                    judge(c, kind, a, bytes(q), f'{name}, bytes {i} and {j} changed')


def payloads(depth, to):
    """Record structures that do not fit, with the data they ask for or one byte less or more."""
    sizes = (-1, 0, 1, 2, to - 1, to, to + 1, -to, 1 << 31, -(1 << 31), 1 << 63, (1 << 64) + 1)
    adjs = (0, -1, 1, -2, -to, 5, 200, -200, 1 << 40, -(1 << 40))

    def rec(n, left):
        yield b'', ()
        if n == 0:
            return
        for d in sizes:
            for e in sizes:
                if d > 1 << 20 and e != 0 or abs(d) > to + 1 and abs(e) > to + 1:
                    continue
                for adj in adjs if n == depth or (0 < d + e < to) else (0, -1):
                    body = size(d) + bytes(range(40, 40 + min(max(d, 0), 9))) + size(e) + bytes(range(80, 80 + min(max(e, 0), 9))) + size(adj)
                    if d + e == 0 and n == 1:
                        yield body, ((d, e, adj),)
                        continue
                    if 0 <= d <= left and 0 <= e <= left - d and n > 1:
                        for b, t in rec(n - 1, left - d - e):
                            yield body + b, ((d, e, adj),) + t
                    else:
                        yield body, ((d, e, adj),)
    yield from rec(depth, to)


def enumerate_(c):
    th = c.thorough
    a = bytes(range(1, 31))
    b = bytes(range(9, 21)) + b'hello' + bytes(x + 3 for x in a[2:9]) + bytes(14) + a[:5]
    big = gen.lcg(5000, 3)
    for comp in ref.COMP:
        p = io.BytesIO()
        detools.create_patch(io.BytesIO(a), io.BytesIO(b), p, compression=comp)
        p = p.getvalue()
        damage(c, 'sequential', a, p, f'sequential {comp}', range(256))
        flips(c, 'sequential', a, p, f'sequential {comp}', 1 if th else 5)
        # several records
        recs = [(3, 2, -1), (0, 4, 5), (6, 0, -9), (1, 1, 2), (0, 3, 0)]
        pos, body, to = 0, size(0), 0
        for i, (d, e, adj) in enumerate(recs):
            body += size(d) + bytes(range(i, i + d)) + size(e) + bytes(range(100 + i, 100 + i + e)) + size(adj)
            to += d + e
        p = bytes([ref.COMP.index(comp)]) + size(to) + pack(comp, body)
        damage(c, 'sequential', a, p, f'sequential {comp}, five records', range(256) if th else [0, 1, 2, 3, 5, 7, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0xc1, 0xff])
        # payloads with something missing or left over, compressed correctly
        if c.next():
            c.desc(f'{comp}: payload cut or extended')
            for k in range(len(body) + 1):
                judge(c, 'sequential', a, bytes([ref.COMP.index(comp)]) + size(to) + pack(comp, body[:k]), f'{comp}, {k} bytes of payload', True)
            for tail in (b'\0', b'\1', bytes(3), bytes(5000), body, gen.lcg(4100, 2)):
                judge(c, 'sequential', a, bytes([ref.COMP.index(comp)]) + size(to) + pack(comp, body + tail), f'{comp}, {len(tail)} bytes after the last record', True)
            for t in (-1, 0, 1, to - 1, to + 1, 64, 1 << 20, -to, 1 << 62):
                judge(c, 'sequential', a, bytes([ref.COMP.index(comp)]) + size(t) + pack(comp, body), f'{comp}, to-size {t}', True)
        # large patches cut around the blocks of the applier
        for n in (4090, 5000):
            if not c.next():
                continue
            c.desc(f'{comp}: large patch cut')
            p = io.BytesIO()
            detools.create_patch(io.BytesIO(big[:2000]), io.BytesIO(gen.lcg(n, 5) + big[:1000]), p, compression=comp)
            p = p.getvalue()
            for k in sorted({*range(4080, 4110), *range(0, len(p), 501), *range(len(p) - 40, len(p) + 1)}):
                judge(c, 'sequential', big[:2000], p[:k], f'{comp}, {k} of {len(p)} bytes')
        for k in (0, 1, 2, 5, 29, 30):
            if not c.next():
                continue
            c.desc(f'{comp}: from-data runs out')
            for d in range(0, 34):
                for adj in (-1, 0, 1, 40, -40):
                    body = size(0) + size(1) + b'\1' + size(0) + size(k - 1) + size(d) + bytes(d) + size(2) + b'xy' + size(adj)
                    judge(c, 'sequential', a, bytes([ref.COMP.index(comp)]) + size(d + 3) + pack(comp, body), f'{comp}, diff of {d} at {k}', True)
                    body += size(1) + b'z' + size(0) + size(0)
                    judge(c, 'sequential', a, bytes([ref.COMP.index(comp)]) + size(d + 4) + pack(comp, body), f'{comp}, diff of {d} at {k}, then {adj}', True)
        # in-place
        for ms, ss, mn in ((96, 16, None), (64, 32, 0 if comp == 'none' else 32)):
            p = io.BytesIO()
            try:
                detools.create_patch(io.BytesIO(a), io.BytesIO(b), p, compression=comp, patch_type='in-place', memory_size=ms, segment_size=ss, minimum_shift_size=mn)
            except detools.Error:
                continue
            damage(c, 'in-place', a + bytes(range(ms - 30)), p.getvalue(), f'in-place {comp} {ms}', range(256) if th or ss == 16 else [0, 1, 5, 0x3f, 0x40, 0x7f, 0x80, 0xff])
        # in-place headers
        good = {}
        values = (-1, 0, 1, 2, 7, 8, 9, 16, 17, 1 << 31, -(1 << 31), 1 << 62)
        for ms in (16, 0, -1, 8, 17, 1 << 31, -5):
            for ss in values:
                if not c.next():
                    continue
                c.desc(f'in-place {comp}: headers with memory {ms} segment {ss}')
                if comp in ('bz2', 'lz4', 'zstd') and not th:
                    continue
                for sh in values:
                    for fs in values:
                        for ts in values:
                            if (abs(sh) > 99) + (abs(fs) > 99) + (abs(ts) > 99) > 1:
                                continue
                            body = b''
                            for at in range(0, min(max(ts, 0), 64), max(ss, 8)):
                                n = min(max(ss, 8), ts - at, 64)
                                body += size(0) + size(0) + size(n) + bytes(range(at, at + n)) + size(0)
                            if body not in good:
                                good[body] = pack(comp, body)
                            h = bytes([0x10 + ref.COMP.index(comp)]) + size(ms) + size(ss) + size(sh) + size(fs) + size(ts)
                            judge(c, 'in-place', bytes(range(100, 116)), h + good[body], f'memory {ms} segment {ss} shift {sh} from {fs} to {ts}')
                            if ts <= 0:
                                judge(c, 'in-place', bytes(range(100, 116)), h, f'memory {ms} segment {ss} shift {sh} from {fs} to {ts}, no payload')
    # records that do not fit
    for comp in ('none', 'crle'):
        h = bytes([ref.COMP.index(comp)])
        for to in (1, 3, 8) if comp == 'none' else (3,):
            for depth in (1, 2, 3):
                if depth == 3 and not (th and to == 3 or comp == 'none' and to == 3):
                    continue
                for i, (body, t) in enumerate(payloads(depth, to)):
                    if depth == 3 and not th and i % 4:
                        continue
                    if not c.next():
                        continue
                    c.desc(f'{comp}, to-size {to}, records {t}')
                    for cut in (0, 1):
                        q = size(0) + body[:len(body) - cut]
                        judge(c, 'sequential', a, h + size(to) + (q if comp == 'none' else pack(comp, q)), f'{comp}, to-size {to}, records {t}, {cut} less', i % 16 == 0)
                    if comp == 'none':
                        judge(c, 'in-place', a[:16], b'\x10' + b''.join(size(x) for x in (16, 8, 8, 8, to)) + size(0) + body, f'in-place, to-size {to}, records {t}', i % 16 == 0)
                    if i == 99:
                        c.sample(f'{comp}, to-size {to}, records {t}')
    # bsdiff
    def o8(v):
        return struct.pack('<Q', abs(v) | (1 << 63 if v < 0 else 0))
    p = io.BytesIO()
    detools.create_patch(io.BytesIO(a), io.BytesIO(b), p, patch_type='bsdiff')
    damage(c, 'bsdiff', a, p.getvalue(), 'bsdiff', range(256))
    z = bz2.compress

    def make(triples, diff, extra, to, dc=0, dd=0, zs=(z, z, z)):
        x, y, w = zs[0](b''.join(o8(v) for t in triples for v in t)), zs[1](diff), zs[2](extra)
        return b'BSDIFF40' + o8(len(x) + dc) + o8(len(y) + dd) + o8(to) + x + y + w
    base = [(3, 2, -1), (0, 4, 5), (6, 0, -9), (1, 1, 2)]
    for i in range(4):
        for j in range(3):
            for v in (-1, 0, 1, 2, 3, 7, 30, 31, 17, 18, -3, -40, 1 << 31, -(1 << 31), 1 << 62, -(1 << 62), (1 << 63) - 1, -(1 << 63) + 1):
                if not c.next():
                    continue
                c.desc(f'bsdiff, triple {i} field {j} is {v}')
                tr = [list(t) for t in base]
                tr[i][j] = v
                for to in (17, sum(max(-99, min(99, t[0] + t[1])) for t in tr), 16, 18, 0, -1):
                    for nd in range(8, 13):
                        for ne in range(5, 10):
                            judge(c, 'bsdiff', a, make(tr, bytes(range(nd)), bytes(range(50, 50 + ne)), to), f'bsdiff, triple {i} field {j} is {v}, to-size {to}, {nd} diff and {ne} extra bytes', nd == ne == 9)
    for t in range(-3, 40):
        if not c.next():
            continue
        c.desc(f'bsdiff, to-size {t}')
        for nt in range(5):
            for nd in (0, 3, 9, 10, 11):
                for ne in (0, 2, 6, 7, 8):
                    judge(c, 'bsdiff', a, make(base[:nt], bytes(range(nd)), bytes(range(50, 50 + ne)), t), f'bsdiff, to-size {t}, {nt} triples, {nd} diff and {ne} extra bytes')
                    for dc, dd in ((1, 0), (-1, 0), (0, 1), (0, -1), (5, -5), (1 << 40, 0), (0, 1 << 62), (-200, 0), (0, -200)):
                        judge(c, 'bsdiff', a, make(base[:nt], bytes(range(nd)), bytes(range(50, 50 + ne)), t, dc, dd), f'bsdiff, to-size {t}, sizes off by {dc} and {dd}')
    # short from-data together with short diff data, and each stream cut
    for k in range(0, 31):
        if not c.next():
            continue
        c.desc(f'bsdiff, from-data of {k}')
        for nd in range(0, 12):
            for ne in range(0, 9):
                judge(c, 'bsdiff', a[:k], make(base, bytes(range(nd)), bytes(range(50, 50 + ne)), 17), f'bsdiff, from-data of {k}, {nd} diff and {ne} extra bytes')
    for which in range(3):
        if not c.next():
            continue
        c.desc(f'bsdiff, stream {which} cut')
        for k in range(0, 60):
            zs = [z, z, z]
            zs[which] = lambda x: z(x)[:k]
            judge(c, 'bsdiff', a, make(base, bytes(range(10)), bytes(7), 17, zs=zs), f'bsdiff, stream {which} has {k} bytes', True)
            zs[which] = lambda x: z(x) + bytes(k)
            judge(c, 'bsdiff', a, make(base, bytes(range(10)), bytes(7), 17, zs=zs), f'bsdiff, stream {which} and {k} bytes more', True)
    # large bsdiff patch
    x, y = gen.lcg(30000, 4), gen.lcg(30000, 4)[7000:] + gen.lcg(9000, 6)
    p = io.BytesIO()
    detools.create_patch(io.BytesIO(x), io.BytesIO(y), p, patch_type='bsdiff')
    p = p.getvalue()
    for k in range(0, len(p), 97 if th else 501):
        if not c.next():
            continue
        c.desc(f'large bsdiff patch cut at {k}')
        judge(c, 'bsdiff', x, p[:k], f'large bsdiff patch, {k} of {len(p)} bytes')
    # all short byte strings
    letters = bytes([0, 1, 2, 4, 5, 6, 0x10, 0x14, 0x20, 0x3f, 0x40, 0x41, 0x80, 0x81, 0xff])
    for n in range(0, 5 if th else 4):
        for s in itertools.product(letters, repeat=n):
            if not c.next():
                continue
            c.desc(f'patch starts {bytes(s).hex()}')
            s = bytes(s)
            for tail in [b''] + [bytes([x]) for x in letters] + [bytes([x, y]) for x in letters for y in letters] if n == (4 if th else 3) else [b'']:
                judge(c, 'sequential', a, s + tail, f'patch {(s + tail).hex()}')
                judge(c, 'sequential', a, b'\0' + s + tail, f'patch 00{(s + tail).hex()}')
                judge(c, 'sequential', a, b'\2' + s + tail, f'patch 02{(s + tail).hex()}')
                judge(c, 'in-place', a, s + tail, f'patch {(s + tail).hex()}')
                judge(c, 'in-place', a, b'\x10\x08\x04\x04\x04' + s + tail, f'patch 1008040404{(s + tail).hex()}')


pyrun.main(enumerate_, memory=1 << 30)
