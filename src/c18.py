# C18 (Python): sizes are packed and unpacked exactly.
import io, itertools
import pyrun
pyrun.load()
from detools.common import pack_size, unpack_size, unpack_size_with_length, unpack_size_bytes, pack_usize, unpack_usize


def ref(b):
    """Reference decoder: (value, bytes used) or None when truncated."""
    v, n = b[0] & 0x3f if b else 0, 1
    if not b:
        return None
    sh = 6
    while b[n - 1] & 0x80:
        if n == len(b):
            return None
        v |= (b[n] & 0x7f) << sh
        sh += 7
        n += 1
    return (-v if b[0] & 0x40 else v), n


def rt(c, v):
    c.count(0)
    b = pack_size(v)
    if ref(b) != (v, len(b)):
        c.fail(f'pack_size({v}) = {b!r}')
    if len(b) > max(1, (abs(v).bit_length() + 7) // 7):
        c.fail(f'pack_size({v}) = {b!r} is longer than needed')
    f = io.BytesIO(b + b'\x81\x55')
    got, n = unpack_size_with_length(f)
    if got != v or n != len(b) or f.tell() != len(b):
        c.fail(f'unpack_size_with_length({b!r}) = {got}, {n}, read {f.tell()}')
    if unpack_size_bytes(b) != v or unpack_size(io.BytesIO(b)) != v:
        c.fail(f'unpack of {v}')
    for k in range(len(b)):
        for fn in (unpack_size_with_length, unpack_size, unpack_usize):
            try:
                got = fn(io.BytesIO(b[:k]))
            except Exception:
                continue
            c.fail(f'{fn.__name__}({b[:k]!r}), truncated, gave {got}')


def rtu(c, v):
    c.count(0)
    b = pack_usize(v)
    f = io.BytesIO(b + b'\x81\x55')
    got = unpack_usize(f)
    if got != v or f.tell() != len(b):
        c.fail(f'unpack_usize(pack_usize({v}) = {b!r}) = {got}, read {f.tell()}')


def enumerate_(c):
    lim = 1 << (24 if c.thorough else 19)
    for b in range(0, lim, 4096):
        if not c.next():
            continue
        c.desc(f'+-{b} to {b + 4096}')
        for v in range(b, b + 4096):
            rt(c, v)
            rt(c, -v)
            rtu(c, v)
        c.seen(b)
    for k in range(65):
        if not c.next():
            continue
        c.desc(f'around 2^{k}')
        for d in range(-300, 301):
            for s in (1, -1):
                v = s * (2 ** k + d)
                if -2 ** 63 <= v < 2 ** 63:
                    rt(c, v)
                else:
                    try:
                        b = pack_size(v)
                    except Exception:
                        c.count(5)
                    else:
                        if ref(b) != (v, len(b)):
                            c.fail(f'pack_size({v}), out of range, gave {b!r}')
                if 0 <= v < 2 ** 64:
                    rtu(c, v)
                elif v < 0 or v >= 2 ** 64:
                    try:
                        b = pack_usize(v)
                    except Exception:
                        c.count(5)
                    else:
                        c.fail(f'pack_usize({v}), out of range, gave {b!r}')
            for k2 in range(64):
                if d in (0, 1, -1):
                    for v in (2 ** k + 2 ** k2 + d, 2 ** k - 2 ** k2 + d):
                        if -2 ** 63 <= v < 2 ** 63:
                            rt(c, v)
                        if 0 <= v < 2 ** 64:
                            rtu(c, v)
        c.seen('2^', k)
        c.sample(f'all values within 300 of +-2^{k}')
    letters = (0x00, 0x01, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xff)
    for n in range(1, 7 if c.thorough else 6):
        for p in itertools.product(letters, repeat=min(n, 2)):
            if not c.next():
                continue
            c.desc(f'all encodings of {n} bytes over {len(letters)} letters, first {bytes(p)!r}')
            for t in itertools.product(letters, repeat=n - len(p)):
                b = bytes(p + t)
                c.count(0)
                r = ref(b)
                f = io.BytesIO(b)
                try:
                    got = unpack_size_with_length(f)
                except Exception:
                    if r is not None:
                        c.fail(f'unpack of {b!r} refused')
                    c.count(5)
                    continue
                if r is None:
                    c.fail(f'unpack of {b!r}, truncated, gave {got}')
                if got != r or f.tell() != r[1]:
                    c.fail(f'unpack of {b!r} gave {got}, expected {r}')
            c.seen(n, p)
    for first in range(256):
        if not c.next():
            continue
        c.desc(f'all encodings of one or two bytes, first {first}')
        for second in range(256):
            b = bytes((first, second))
            r = ref(b)
            c.count(0)
            try:
                got = unpack_size_with_length(io.BytesIO(b))
            except Exception:
                got = None
            if got != r:
                c.fail(f'unpack of {b!r} gave {got}, expected {r}')
        c.seen('2', first)


pyrun.main(enumerate_)
