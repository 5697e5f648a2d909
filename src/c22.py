# C22: the suffix arrays are correct.
import ctypes, itertools, mmap, sys
import pyrun
pyrun.load()
from detools.suffix_array import sais, divsufsort
C = pyrun.CLib().l
ALGOS = (('sais', sais), ('divsufsort', divsufsort))
MAX = 300000
RANK = (ctypes.c_int * (MAX + 2))()
WHY = {1: 'the empty suffix is not first', 2: 'entry out of range', 3: 'entry twice', 4: 'not sorted',
       5: 'wrote outside the array'}


def one(c, data, name=None, how=bytes):
    n = len(data)
    for an, algo in ALGOS:
        raw = bytearray(b'\xa5' * 16 + b'\x5a' * (4 * (n + 1)) + b'\xa5' * 16)
        given = how(data)
        view = memoryview(raw)
        algo(given, view[16:16 + 4 * (n + 1)])
        view.release()
        if bytes(given[:]) != data:
            c.fail(f'{an} modified its input {name or data!r}')
        r = C.vf_check_sa(data, n, (ctypes.c_char * len(raw)).from_buffer(raw), RANK)
        if r:
            c.fail(f'{an}({name or data!r}): {WHY[r]}')
        c.count(0)


def as_mmap(data):
    m = mmap.mmap(-1, len(data) or 1)
    m[:len(data)] = data
    return m


def words():
    """Named long strings."""
    for n in (1, 2, 3, 5, 10, 13, 16, 20):
        f = [b'a', b'ab']
        for _ in range(n):
            f.append(f[-1] + f[-2])
        yield f'fibonacci {n}', f[-1]
    t = b'\x00'
    for k in range(14):
        t = t + bytes(1 - x for x in t)
        yield f'thue-morse {k}', t
    for k, n in ((2, 12), (3, 7), (4, 6), (16, 3), (256, 2)):
        a, seq = [0] * k * n, []

        def db(t, p):
            if t > n:
                if n % p == 0:
                    seq.extend(a[1:p + 1])
            else:
                a[t] = a[t - p]
                db(t + 1, p)
                for j in range(a[t - p] + 1, k):
                    a[t] = j
                    db(t + 1, t)
        sys.setrecursionlimit(10000)
        db(1, 1)
        yield f'de bruijn {k} {n}', bytes(x * (255 // (k - 1)) for x in seq)
        yield f'de bruijn {k} {n} reversed', bytes(x * (255 // (k - 1)) for x in reversed(seq))


def lcg(n, seed, mask=255):
    out = bytearray()
    for _ in range(n):
        seed = (seed * 1103515245 + 12345) & 0x7fffffff
        out.append(seed >> 16 & mask)
    return bytes(out)


def enumerate_(c):
    th = c.thorough
    # every string over small alphabets
    for letters, depth in ((b'\x00\xff', 19 if th else 16), (b'\x00\x7f\x80', 12 if th else 10), (b'\x00\x01\xfe\xff', 10 if th else 8),
                           (b'\xff\x00', 13), (b'abcdefg', 6 if th else 5)):
        for n in range(depth + 1):
            pre = min(n, 4 if len(letters) < 4 else 3)
            for p in itertools.product(letters, repeat=pre):
                if not c.next():
                    continue
                c.desc(f'all strings of length {n} over {letters!r} that start with {bytes(p)!r}')
                for t in itertools.product(letters, repeat=n - pre):
                    one(c, bytes(p + t))
                k = len(letters) ** (n - pre)
                c.count(1, k)
                c.seen(letters, n, p)
                if n == 3:
                    c.sample(f'all strings of length {n} over {letters!r} that start with {bytes(p)!r}')
    # two bytes, all values
    for a in range(256):
        if not c.next():
            continue
        c.desc(f'two bytes, first {a}')
        for b in range(256):
            one(c, bytes((a, b)))
            one(c, bytes((a, b, a)))
        c.count(1, 512)
        c.seen('two', a)
    # periods u^k v: all short u, lengths around the block sizes of the algorithms
    lens = (40, 255, 256, 257, 1023, 1024, 1025, 2050) + ((4096, 20000) if th else ())
    for pl in range(1, 9 if th else 7):
        for u in itertools.product((1, 2), repeat=pl):
            for n in lens:
                if not c.next():
                    continue
                c.desc(f'period {bytes(u)!r} length {n}, one byte changed')
                base = bytearray((bytes(u) * (n // pl + 1))[:n])
                one(c, bytes(base))
                for at in sorted({0, 1, pl, n // 2, n // 2 + 1, n - pl - 1, n - 2, n - 1} & set(range(n))):
                    for v in (0, 1, 2, 3):
                        d = bytearray(base)
                        d[at] = v
                        one(c, bytes(d), f'period {bytes(u)!r} length {n} byte {at} = {v}')
                        c.count(1)
                c.seen(u, n)
    # two runs and a tail
    for i in (0, 1, 7, 8, 9, 255, 256, 1024, 1025):
        for j in (0, 1, 7, 8, 9, 255, 256, 1024, 1025):
            if not c.next():
                continue
            c.desc(f'runs of {i} and {j}')
            for x, y in ((0, 255), (255, 0), (1, 2)):
                for tail in (b'', bytes([x]), bytes([y]), bytes([x, y]), bytes([y, y, x])):
                    d = bytes([x]) * i + bytes([y]) * j + tail
                    for dd in (d, d * 2, d * 3 + tail):
                        one(c, dd, f'runs {x} x {i}, {y} x {j}, tail {tail!r}, {len(dd)} bytes')
                        c.count(1)
                        c.seen(dd)
    for name, d in words():
        if not c.next():
            continue
        c.desc(name)
        for how in (bytes, bytearray, as_mmap):
            one(c, d, name, how if d or how is not as_mmap else bytes)
        for k in range(1, min(40, len(d))):
            one(c, d[k:], f'{name} from {k}')
            one(c, d[:-k], f'{name} to -{k}')
            c.count(1, 2)
        c.seen(d)
    # blocks that repeat with changes, like firmware images
    for n in (100, 1000, 5000, 70000) + ((250000,) if th else ()):
        for seed in range(12 if th else 6):
            for mask in (1, 15, 255):
                if not c.next():
                    continue
                c.desc(f'lcg {n} {seed} {mask}')
                b = lcg(n, seed, mask)
                one(c, b, f'lcg {n} {seed} {mask}')
                h = b[:n // 3]
                d = bytearray(h + h + b[n // 3:] + h)[:MAX]
                for at in range(0, len(d), 997):
                    d[at] ^= 1
                one(c, bytes(d), f'lcg {n} {seed} {mask} repeated')
                c.count(1, 2)
                c.seen(d)
    # every second byte the same: half of all suffixes are of the kind divsufsort sorts first, in buckets of thousands
    def inter(w):
        return bytes(x for v in w for x in (0, v))

    def thue(n):
        return bytes(1 + bin(i).count('1') % 2 for i in range(n))

    def fib(n):
        a, b = b'\1', b'\1\2'
        while len(b) < n:
            a, b = b, b + a
        return b[:n]

    for n in (1500, 3000, 6000, 10000, 40000, 140000):
        for name, w in [('thue', thue(n)), ('fib', fib(n)), ('same', b'\1' * n), ('period', bytes(x + 1 for x in lcg(300, 1, 1)) * (n // 300)),
                        ('same but last', b'\1' * n + b'\2'), ('same but first', b'\2' + b'\1' * n)] + [
                            (f'lcg {seed} {mask}', bytes(x + 1 for x in lcg(n, seed, mask))) for mask in (1, 3, 15, 255 - 128) for seed in range(4 if th else 2)] + [
                            (f'twice lcg {mask}', bytes(x + 1 for x in lcg(n // 2, 1, mask)) * 2) for mask in (1, 3, 15)]:
            if n > 100000 and not th and name not in ('thue', 'same', 'lcg 0 1') or not c.next():
                continue
            c.desc(f'every second of {n}: {name}')
            for d in (inter(w), inter(w)[1:], inter(w)[:-1], inter(bytes(reversed(w)))):
                one(c, d, f'every second of {n}: {name}')
                c.count(1)
                c.seen(d)
    # all sequences of repeated pieces: ranks that only far comparisons tell apart
    for size in (100, 700, 1500) + ((300, 3000) if th else ()):
        for mask in (1, 3):
            w1 = bytes(x + 1 for x in lcg(size, 3, mask))
            w2 = bytes(x + 1 for x in lcg(size, 4, mask))
            pieces = (w1, w2, w1[size // 3:])
            for n in range(2, 7 if th else 6):
                for seq in itertools.product(range(3), repeat=n):
                    if seq[0] == 1 or (n > 3 and not th and size > 1000) or not c.next():
                        continue
                    c.desc(f'pieces {seq} of {size}, values up to {mask + 1}')
                    d = b''.join(pieces[i] for i in seq)
                    for tail in (b'', d[:size // 2]):
                        for x in (d + tail, inter(d + tail)):
                            one(c, x, f'pieces {seq} of {size}, values up to {mask + 1}, tail {len(tail)}')
                            c.count(1)
                    c.seen(d)


pyrun.main(enumerate_)
