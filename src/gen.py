"""Contents for the create/apply harnesses."""
import itertools


def lcg(n, seed, mask=255):
    out = bytearray()
    for _ in range(n):
        seed = (seed * 1103515245 + 12345) & 0x7fffffff
        out.append(seed >> 16 & mask)
    return bytes(out)


def strings(letters, depth):
    for n in range(depth + 1):
        for t in itertools.product(letters, repeat=n):
            yield bytes(t)


def bases(n):
    """Named from-data of n bytes."""
    yield 'random', lcg(n, 1)
    yield 'few values', lcg(n, 2, 3)
    yield 'period 12', (b'\x00\x20\x10\xbd\x00\xf0' + b'\x01\x02\x03\x04\x05\x06')[:12] * (n // 12) + b'\x07' * (n % 12)


def menu(b):
    """Pieces a to-data is made of."""
    n = len(b)
    mod = bytearray(b[n // 4:3 * n // 4])
    for i in range(3, len(mod), 7):
        mod[i] = mod[i] + 1 & 255
    return [('first half', b[:n // 2]), ('second half', b[n // 2:]), ('all', b), ('middle changed', bytes(mod)),
            ('7 new', lcg(7, 99)), ('90 new', lcg(90, 77)), ('zeros', bytes(20)), ('last byte', b[-1:]),
            ('backwards', b[::-1]), ('all but ends', b[1:-1])]


def scripts(b, depth):
    m = menu(b)
    for k in range(depth + 1):
        for s in itertools.product(m, repeat=k):
            yield ' + '.join(x[0] for x in s), b''.join(x[1] for x in s)
