# C21: a created bsdiff patch applies to exactly the to-data, and is a standard BSDIFF40 file.
import io, itertools, os
import pyrun
pyrun.load()
import detools
import gen, ref


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def check(c, a, b, what, files=False):
    c.seen(a, b)
    c.count(0)
    try:
        p = io.BytesIO()
        detools.create_patch(io.BytesIO(a), io.BytesIO(b), p, patch_type='bsdiff')
        p = p.getvalue()
        out = io.BytesIO()
        n = detools.apply_patch_bsdiff(io.BytesIO(a), io.BytesIO(p), out)
    except Exception as e:
        c.fail(f'{what}: {type(e).__name__} {e}')
    if out.getvalue() != b or n != len(b):
        c.fail(f'{what}: applied gives {n}, {out.getvalue()[:80].hex()} instead of {b[:80].hex()}')
    try:
        r, _ = ref.bsdiff(a, p)
    except (ref.Bad, ref.Odd) as e:
        c.fail(f'{what}: not a valid BSDIFF40 file: {e}')
    if r != b:
        c.fail(f'{what}: the patch means {r[:80].hex()} instead of {b[:80].hex()}')
    if files:
        put('from', a)
        put('to', b)
        detools.create_patch_filenames('from', 'to', 'patch', patch_type='bsdiff')
        q = open('patch', 'rb').read()
        n = detools.apply_patch_bsdiff_filenames('from', 'patch', 'out')
        o = open('out', 'rb').read()
        if q != p or n != len(b) or o != b:
            c.fail(f'{what}: with files: {n}, {o[:80].hex()}')


def enumerate_(c):
    th = c.thorough
    small = list(gen.strings(b'\x00\x01', 8 if th else 7))
    for a in small:
        if not c.next():
            continue
        c.desc(f'from {a.hex()}, all to-data over two letters')
        for b in small:
            check(c, a, b, f'from {a.hex()} to {b.hex()}', len(a) + len(b) < 6)
    for a in gen.strings(b'\x00\x7f\xff', 4 if th else 3):
        if not c.next():
            continue
        c.desc(f'from {a.hex()}, all to-data over three letters')
        for b in gen.strings(b'\x00\x80\xff', 5 if th else 4):
            check(c, a, b, f'from {a.hex()} to {b.hex()}')
    for n in (20, 60, 200, 1000, 5000):
        for name, base in gen.bases(n):
            for k, (what, b) in enumerate(gen.scripts(base, 4 if th and n == 60 else 3)):
                if not c.next():
                    continue
                c.desc(f'{n} bytes {name} to {what}')
                check(c, base, b, f'{n} bytes {name} to {what}', k % 11 == 0)
                if k == 57:
                    c.sample(f'{n} bytes {name} to {what}')
    base = gen.lcg(40, 5)
    for i in range(41):
        if not c.next():
            continue
        c.desc(f'edits at {i}')
        for j in range(i, 41):
            for mid in (base[i:j], bytes(x + 1 & 255 for x in base[i:j]), b''):
                for x, y in ((b'', b'\x11'), (b'\x22' * 3, b''), (b'\x33' * 9, base[:9])):
                    check(c, base, base[:i] + x + mid + y + base[j:], f'40 bytes, edits at {i} and {j}')
    for na, nb, nc in itertools.product((0, 5, 40, 150), (12, 24, 60), (12, 40, 200)):
        if not c.next():
            continue
        c.desc(f'inner match, {na}, {nb} and {nc} bytes')
        A, B, C_, D = gen.lcg(na, 41), gen.lcg(nb, 42), gen.lcg(nc, 43), gen.lcg(50, 44)
        for rate in (1, 2, 3, 4, 6, 9):
            B2 = bytearray(B)
            for at in range(rate // 2, nb, rate):
                B2[at] ^= 0x21
            B2 = bytes(B2)
            for a in (A + B + C_ + D + B2 + D[:9], D + B2 + A + B + C_):
                for b in (A + B2 + C_, A + B + C_ + A + B2 + C_, B2 + C_ + A + B2):
                    check(c, a, b, f'inner match, {na}, {nb} and {nc} bytes, rate {rate}')
    # sizes around the blocks of bz2 (100000 to 900000 bytes) and its output steps
    sizes = [x + d for x in (512, 4096, 8192, 32768, 100000) for d in (-1, 0, 1, 7, 8)] + [899981, 899982, 900000, 900001, 1000003]
    for n in sizes:
        for kind in range(5):
            if not c.next():
                continue
            c.desc(f'{n} bytes, kind {kind}')
            a, b = gen.lcg(n, 11), gen.lcg(n, 12)
            to = (b, a, bytes(x + 1 & 255 for x in a[:20000]) + a[20000:], bytes(n), a[:n // 2] + b[:500] + a[n // 2:])[kind]
            check(c, b'' if kind == 0 else a, to, f'{n} bytes, kind {kind}', True)
    for n in (65536, 131072, 262144, 1 << 20):
        for kind in range(4):
            if not c.next():
                continue
            c.desc(f'far, {n} bytes, kind {kind}')
            a = gen.lcg(n, 31)
            to = (a[n // 2:] + a[:n // 2], a[:n // 2] + gen.lcg(70000, 3) + a[n // 2:], a[-5000:] + a[:5000] + a[-9000:-4000], gen.lcg(n, 3) + a)[kind]
            check(c, a, to, f'far, {n} bytes, kind {kind}')
    # many records: the control block is large
    a = gen.lcg(60000, 21)
    for step in (40, 64, 100, 1000):
        if not c.next():
            continue
        c.desc(f'many records, step {step}')
        parts = [a[i:i + step] for i in range(0, len(a), step)]
        b = b''.join(parts[1::2] + parts[::2])
        check(c, a, b, f'many records, step {step}')
        b = b''.join(x + bytes([i & 255]) * 30 for i, x in enumerate(parts[::-1]))
        check(c, a, b, f'many records and extras, step {step}')


pyrun.main(enumerate_)
