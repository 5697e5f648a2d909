# C17: CRLE compression round-trips, and C and Python agree.
import copy, io, itertools
import pyrun
pyrun.load()
from detools.compression.crle import CrleCompressor, CrleDecompressor
import detools
C = pyrun.CLib()


def usize(v):
    b = bytearray()
    while True:
        b.append(v & 0x7f | (0x80 if v > 0x7f else 0))
        v >>= 7
        if not v:
            return bytes(b)


def size(v):
    b = bytearray([v & 0x3f | (0x80 if v > 0x3f else 0)])
    v >>= 6
    while v:
        b.append(v & 0x7f | (0x80 if v > 0x7f else 0))
        v >>= 7
    return bytes(b)


def ref(b):
    """Reference decoder of a whole CRLE stream."""
    out, i = bytearray(), 0
    while i < len(b):
        kind = b[i]
        i += 1
        v = sh = 0
        while True:
            v |= (b[i] & 0x7f) << sh
            sh += 7
            i += 1
            if not b[i - 1] & 0x80:
                break
        if kind == 0:
            if len(b) - i < v:
                raise ValueError('short')
            out += b[i:i + v]
            i += v
        elif kind == 1:
            out += b[i:i + 1] * v
            if i == len(b):
                raise ValueError('short')
            i += 1
        else:
            raise ValueError('kind')
    return bytes(out)


def comp(parts):
    k = CrleCompressor()
    return b''.join([k.compress(p) for p in parts] + [k.flush()])


def short(d):
    return repr(d) if len(d) < 80 else f'{len(d)} bytes {d[:40]!r}...'


def stream(c, comp_, data, ins, outs, what):
    """The decompressor used the way the patch reader uses it."""
    d = CrleDecompressor(len(comp_))
    pos, out = 0, b''
    i = 0
    while not d.eof:
        n = outs[i % len(outs)]
        if d.needs_input:
            k = ins[i % len(ins)]
            if pos == len(comp_):
                c.fail(f'{what}: all input given, {len(out)} of {len(data)} out, wants more')
            x = d.decompress(comp_[pos:pos + k], n)
            pos += k
        else:
            x = d.decompress(b'', n)
        i += 1
        if len(x) > n:
            c.fail(f'{what}: more than asked for')
        out += x
    c.count(0)
    if out != data:
        c.fail(f'{what}: in {ins} out {outs}: {short(out)} instead of {short(data)}')
    if pos < len(comp_):
        c.fail(f'{what}: end of data reported with {len(comp_) - pos} bytes left')


def graph(c, comp_, data):
    """All ways of giving input and taking output, up to equal states of the decompressor."""
    start = CrleDecompressor(len(comp_))
    seen, todo = set(), [(0, 0, start)]
    while todo:
        pos, got, d = todo.pop()
        key = (pos, got, repr(sorted(d.__dict__.items())))
        if key in seen:
            continue
        seen.add(key)
        c.count(1)
        done = got == len(data) and pos == len(comp_)
        if d.eof != done:
            c.fail(f'{short(comp_)}: eof is {d.eof} after {pos} of {len(comp_)} in and {got} of {len(data)} out')
        if d.eof:
            continue
        if d.needs_input:
            if pos >= len(comp_):
                c.fail(f'{short(comp_)}: wants input after all of it, {got} of {len(data)} out')
            steps = [(k, n) for k in range(1, len(comp_) - pos + 1) for n in (1, 2, 5, len(data) + 1)]
        else:
            steps = [(0, n) for n in (1, 2, 5, len(data) + 1)]
        for k, n in steps:
            e = copy.copy(d)
            x = e.decompress(comp_[pos:pos + k], n)
            c.count(2)
            if len(x) > n or data[got:got + len(x)] != x:
                c.fail(f'{short(comp_)}: {pos} in, {got} out; {k} more gave {x!r}')
            todo.append((pos + k, got + len(x), e))


def in_c(c, comp_, data, what):
    """The C library and the Python applier decode it as the payload of a patch."""
    payload = size(0) + size(0) + size(len(data)) + data + size(0)
    cp = comp((payload,))
    if data:
        patch = b'\x02' + size(len(data)) + cp
        for chunk in (0, 1, 3):
            r = C.apply(b'', patch, chunk)
            c.count(3)
            if r != data:
                c.fail(f'{what}: the C library with chunks of {chunk} gives {r if isinstance(r, int) else short(r)}')
        out = io.BytesIO()
        detools.apply_patch(io.BytesIO(b''), io.BytesIO(patch), out)
        if out.getvalue() != data:
            c.fail(f'{what}: the Python applier gives {short(out.getvalue())}')
        # the payload cut in two segments with the compressed form of the data itself in the middle
        a, b = size(0) + size(0) + size(len(data)), size(0)
        patch = b'\x02' + size(len(data)) + b'\x00' + usize(len(a)) + a + comp_ + b'\x00' + usize(len(b)) + b
        r = C.apply(b'', patch)
        if r != data:
            c.fail(f'{what}: embedded, the C library gives {r if isinstance(r, int) else short(r)}')


def check(c, data, deep=0, splits=None, what=None):
    what = what or short(data)
    whole = comp((data,))
    c.seen(data)
    forms = {whole}
    n = len(data)
    if splits is None:
        splits = [()]
    for s in splits:
        cut = [0] + sorted(s) + [n]
        z = comp([data[a:b] for a, b in zip(cut, cut[1:])])
        c.count(0)
        forms.add(z)
    z = comp([data[i:i + 1] for i in range(n)]) if n < 3000 else whole
    forms.add(z)
    for z in forms:
        try:
            back = ref(z)
        except (ValueError, IndexError) as e:
            c.fail(f'{what}: the compressed form {short(z)} is damaged ({e})')
        if back != data:
            c.fail(f'{what}: the compressed form {short(z)} decodes to {short(back)}')
        for ins, outs in (((1,), (1,)), ((1,), (1 << 20,)), ((4096,), (1,)), ((4096,), (4096,)), ((1, 2, 3), (3, 1)), ((2,), (5,))):
            if n > 3000 and outs[0] == 1:
                outs = (509,)
            if n > 100000:
                ins, outs = tuple(k * 97 for k in ins), tuple(k * 1021 for k in outs)
            stream(c, z, data, ins, outs, what)
        in_c(c, z, data, what)
        if deep and len(z) <= deep:
            graph(c, z, data)


def enumerate_(c):
    th = c.thorough
    # every string over two and three letters
    for letters, depth, deep in ((b'\x00\x01', 18 if th else 15, 0), (b'\x00\x01\xff', 11 if th else 9, 0)):
        for n in range(depth + 1):
            for p in itertools.product(letters, repeat=min(n, 3)):
                if not c.next():
                    continue
                c.desc(f'all strings of {n} over {letters!r} from {bytes(p)!r}')
                for t in itertools.product(letters, repeat=n - len(p)):
                    check(c, bytes(p + t))
    # run lengths around the threshold, all splits of the input in up to three, all orders of in and out
    lens = (0, 1, 2, 5, 6, 7, 8) if not th else (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13)
    for a, b, d in itertools.product(lens, repeat=3):
        if not c.next():
            continue
        c.desc(f'runs of {a}, {b}, {d}')
        for x, y, z in ((0, 1, 0), (5, 5, 6), (0, 255, 7), (1, 0, 1)):
            data = bytes([x]) * a + bytes([y]) * b + bytes([z]) * d
            n = len(data)
            check(c, data, 40 if th else 22, list(itertools.combinations(range(n + 1), 2)) if n < 18 or th else [(i,) for i in range(n + 1)])
        c.sample(f'runs of {a}, {b}, {d} bytes: every split of the input, every order of input and output')
    # sizes around the 7-bit limits
    for n in (126, 127, 128, 129, 255, 256, 4090, 4095, 4096, 4097, 16382, 16383, 16384, 16385) + ((2097151, 2097152) if th else ()):
        for kind in range(5):
            if not c.next():
                continue
            c.desc(f'{n} bytes of kind {kind}')
            scat = bytes((i * 7 + (i >> 3)) & 255 for i in range(n))
            data = (bytes(n), scat if n < 20000 else scat[:3000], bytes(n) + scat[:50], scat[:min(n, 3000)] + bytes(n), b'\xff' + bytes(n) + b'\xff' * n)[kind]
            check(c, data, 0, [(1,), (5,), (6,), (n - 1,), (n // 2,)], f'{n} bytes of kind {kind}')


pyrun.main(enumerate_)
