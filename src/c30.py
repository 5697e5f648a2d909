# C30: every compression gives back exactly the patch data, however it is written and read.
import io, itertools
import pyrun
pyrun.load()
from detools.create import create_compressor
from detools.apply import PatchReader
from detools.errors import Error
import gen, ref
C = pyrun.CLib()
CD = pyrun.CLib(True)
ALL = ('none', 'crle', 'heatshrink', 'lzma', 'bz2', 'lz4', 'zstd')


class File:
    """A file whose reads give the bytes up to the next cut only, as a pipe may."""

    def __init__(self, data, cuts=(), step=0):
        self.data, self.cuts, self.step = data, set(cuts), step
        self.pos = self.reads = 0

    def read(self, n=-1):
        self.reads += 1
        left = len(self.data) - self.pos
        n = left if n < 0 else min(n, left)
        if self.step:
            n = min(n, self.step)
        if self.cuts:
            for k in range(1, n):
                if self.pos + k in self.cuts:
                    n = k
                    break
        d = self.data[self.pos:self.pos + n]
        self.pos += n
        return d

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos + (0, self.pos, len(self.data))[whence]
        return self.pos


def short(d):
    return d.hex() if len(d) < 60 else f'{len(d)} bytes {d[:40].hex()}...'


def comp(kind, parts, w=8, l=7):
    k = create_compressor(kind, w, l)
    return b''.join([bytes(k.compress(p)) for p in parts] + [bytes(k.flush())])


def take(c, kind, z, data, outs, what, cuts=(), step=0):
    f = File(z, cuts, step)
    what = f'{what}, {kind}, {"cuts at " + str(cuts) if cuts else "blocks of " + str(step or 4096)}, reads of {outs}'
    c.count(0)
    try:
        r = PatchReader(f, kind)
        got = 0
        i = 0
        while got < len(data):
            n = min(outs[i % len(outs)], len(data) - got)
            i += 1
            x = r.read(n)
            c.count(1)
            if x != data[got:got + n]:
                c.fail(f'{what}: after {got} bytes {short(x)} instead of {short(data[got:got + n])}')
            got += n
            # The end is looked for only when the caller expects it: it takes a byte.
        if not r.eof:
            c.fail(f'{what}: all {got} bytes were read and no end of data')
        if f.pos != len(z):
            c.fail(f'{what}: the end of data was found with {len(z) - f.pos} bytes left of {len(z)}')
        for k in (1, 3):
            try:
                x = r.read(k)
            except Error:
                continue
            c.fail(f'{what}: {short(x)} after the end')
    except pyrun.Failed:
        raise
    except Exception as e:
        c.fail(f'{what}: {type(e).__name__} {e}; {short(z)}')


def early(c, kind, z, data, what):
    """With data left there is no end of data, and no more than there is can be read."""
    for n in sorted({0, 1, len(data) // 2, len(data) - 1}):
        if not 0 <= n < len(data):
            continue
        r = PatchReader(File(z), kind)
        if n:
            r.read(n)
        c.count(2)
        if r.eof:
            c.fail(f'{what}, {kind}: end of data with {len(data) - n} of {len(data)} bytes left')
    r = PatchReader(File(z), kind)
    try:
        x = r.read(len(data) + 1)
    except Error:
        return
    c.fail(f'{what}, {kind}: {len(x)} bytes of {len(data)}')


def check(c, data, what, feeds, ins=(0, 1, 7), outs=((1 << 30,), (1,), (3, 1, 2)), kinds=ALL, cuts=(), hs=((8, 7),)):
    c.seen(data)
    for kind in kinds:
        for w, l in hs if kind == 'heatshrink' else ((8, 7),):
            wh = what + (f', heatshrink {w} {l}' if (w, l) != (8, 7) else '')
            forms = {}
            for parts in feeds:
                try:
                    z = comp(kind, parts, w, l)
                except Exception as e:
                    c.fail(f'{wh}, {kind}: {type(e).__name__} {e}')
                c.count(3)
                forms.setdefault(z, parts)
            for z, parts in forms.items():
                wp = wh + f' written as {[len(p) for p in parts][:12]}'
                try:
                    d, whole, rest = ref.plain(kind, z)
                except Exception as e:
                    c.fail(f'{wp}, {kind}: the compressed form is damaged: {type(e).__name__} {e}: {short(z)}')
                if d != data or not whole or rest:
                    c.fail(f'{wp}, {kind}: the compressed form means {short(d)}, complete {whole}, {rest} more')
                for i in ins:
                    for o in outs:
                        take(c, kind, z, data, o, wp, (), i)
                n = len(z)
                for k in cuts:
                    for t in itertools.combinations(range(1, n), k):
                        take(c, kind, z, data, (1 << 30,), wp, t)
                        take(c, kind, z, data, (2, 1), wp, t)
                early(c, kind, z, data, wp)
                in_c(c, kind, parts, data, wp, w, l)


def others(data):
    """Complete streams that other encoders and settings make of the data."""
    import bz2, lzma, lz4.frame, zstandard
    for level in (1, 3, 19):
        for kw in ({}, dict(write_checksum=True), dict(write_content_size=False), dict(write_checksum=True, write_content_size=False)):
            yield 'zstd', zstandard.ZstdCompressor(level=level, **kw).compress(data)
    k = zstandard.ZstdCompressor(level=3).compressobj()
    yield 'zstd', b''.join([k.compress(data[:len(data) // 2]), k.flush(zstandard.COMPRESSOBJ_FLUSH_BLOCK), k.compress(data[len(data) // 2:]), k.flush(zstandard.COMPRESSOBJ_FLUSH_BLOCK), k.flush()])
    for level in (1, 9):
        yield 'bz2', bz2.compress(data, level)
    for preset in (0, 6, 9):
        k = lzma.LZMACompressor(format=lzma.FORMAT_ALONE, preset=preset)
        yield 'lzma', k.compress(data) + k.flush()
    for kw in ({}, dict(content_checksum=True), dict(block_checksum=True), dict(block_linked=False), dict(store_size=False), dict(content_checksum=True, block_checksum=True, store_size=False)):
        yield 'lz4', lz4.frame.compress(data, **kw)


def cut(c, kind, z, data, what):
    """A stream that is cut anywhere gives no wrong data, and is never complete."""
    for n in range(len(z)):
        c.count(5)
        r = PatchReader(File(z[:n]), kind)
        got = b''
        try:
            while len(got) < len(data):
                got += r.read(min(7, len(data) - len(got)))
                if data[:len(got)] != got:
                    c.fail(f'{what}, {kind} cut to {n} of {len(z)} bytes: {short(got)}')
            e = r.eof
        except Error:
            continue
        if e:
            c.fail(f'{what}, {kind} cut to {n} of {len(z)} bytes: the end of data is reported; {short(z)}')


def size(v):
    b = bytearray([v & 0x3f | (0x80 if v > 0x3f else 0)])
    v >>= 6
    while v:
        b.append(v & 0x7f | (0x80 if v > 0x7f else 0))
        v >>= 7
    return bytes(b)


def in_c(c, kind, parts, data, what, w, l):
    """As the payload of a patch, for the C library: the data followed by the end of the patch is one record."""
    if kind not in ref.IN_C or not data:
        return
    lead = size(0) + size(0) + size(len(data))
    z = comp(kind, (lead, *parts, size(0)), w, l)
    code = {'none': 0, 'lzma': 1, 'crle': 2, 'heatshrink': 4}[kind]
    patch = bytes([code]) + size(len(data)) + z
    for lib, ok in ((C, kind != 'heatshrink' or (w, l) == (8, 7)), (CD, True)):
        if not ok:
            continue
        for chunk in (0, 1):
            r = lib.apply(b'', patch, chunk)
            c.count(4)
            if r != data:
                c.fail(f'{what}, {kind}: the C library with chunks of {chunk} gives {r if isinstance(r, int) else short(r)}')


def halves(d):
    n = len(d)
    return [(d,), tuple(d[i:i + 1] for i in range(n)) or (b'',), (d[:n // 2], d[n // 2:]), (b'', d, b''), (d[:-1], d[-1:])]


def enumerate_(c):
    th = c.thorough
    # every string over two letters, every cut of what is written
    for n in range(15 if th else 12):
        for t in itertools.product(b'\x00\x01', repeat=n):
            if not c.next():
                continue
            d = bytes(t)
            c.desc(f'{d.hex()}')
            check(c, d, d.hex(), halves(d) + [(d[:i], d[i:]) for i in range(n + 1)], (0, 1), ((1 << 30,), (1,)))
    for t in itertools.chain.from_iterable(itertools.product(b'\x00\x7f\xff', repeat=n) for n in range(9 if th else 7)):
        if not c.next():
            continue
        d = bytes(t)
        c.desc(f'{d.hex()}')
        check(c, d, d.hex(), halves(d)[:2], (0, 2), ((1 << 30,), (2,)))
    # the cuts of the compressed form: one anywhere, two anywhere
    for n in (1, 2, 3, 5, 6, 7, 12, 20) + ((40, 70, 130) if th else ()):
        for k, d in enumerate((bytes(n), gen.lcg(n, 4), (b'abcab' * n)[:n], bytes(n // 2) + gen.lcg(n - n // 2, 5))):
            for kind in ALL:
                if not c.next():
                    continue
                c.desc(f'{n} bytes, kind {k}, {kind}, all cuts of the compressed form')
                check(c, d, f'{n} bytes kind {k}', ((d,),), (0, 1, 2, 3, 5, 7), ((1 << 30,), (1,), (2,), (3, 1)), (kind,), (1, 2, 3) if n < (21 if th else 7) else (1, 2))
    c.sample('20 bytes, every compression, every pair of cuts of the compressed form, reads of 2 and 1 bytes')
    # the settings of heatshrink; data repeating at the distances the window and the length field end at
    for w in range(4, 16):
        for l in range(3, w):
            for dist in sorted({1, 2, (1 << w) - 1, (1 << w), (1 << w) + 1, (1 << l) - 1, 1 << l, (1 << l) + 1}):
                if dist > (1 << 12) + 1 and (l not in (3, 8) or dist > (1 << 14) + 1 or not th and dist > 1 << 13) or not c.next():
                    continue
                c.desc(f'heatshrink {w} {l} distance {dist}')
                runs = {1, 3, (1 << l) - 1, 1 << l, (1 << l) + 1}
                if dist > 1000 or l > 10:       # slow to compress
                    runs = {3, 1 << l} if dist < 5000 else {1 << l}
                for run in sorted(runs):
                    d = (gen.lcg(dist, w + l) * (1 + run // dist))[:dist] + (gen.lcg(dist, w + l) * (1 + run // dist))[:run] + b'\x55'
                    check(c, d, f'distance {dist} length {run}', ((d,), (d[:dist], d[dist:])), (0, 1) if dist < 300 else (0, 509), ((1 << 30,), (61,)), ('heatshrink',), (), ((w, l),))
    # sizes around the blocks of the reader
    sizes = [x + e for x in (64, 128, 256, 4096, 8192) for e in range(-3, 4)] + [65535, 65536, 65537, 131072 + 3]
    if th:
        sizes += [1 << 20, (1 << 20) + 1, 300000]
    for n in sizes:
        for k in range(3):
            for kind in ALL:
                if kind == 'crle' and n > 10000 and k or not c.next():
                    continue
                c.desc(f'{n} bytes kind {k} {kind}')
                d = (bytes(n), gen.lcg(n, 6), (gen.lcg(n // 3 + 1, 7, 15) * 3)[:n])[k]
                feeds = [(d,), (d[:n // 3], d[n // 3:])]
                if n < 5000 or kind != 'crle':
                    feeds.append(tuple(d[i:i + 4096] for i in range(0, n, 4096)))
                check(c, d, f'{n} bytes kind {k}', feeds, (0, 1 if n < 300 else 1021), ((1 << 30,), (4096,), (509,)), (kind,))
    # streams of other encoders, whole and cut
    for n in (0, 1, 2, 7, 60, 600, 5000):
        for k in range(3):
            d = (bytes(n), gen.lcg(n, 6), (gen.lcg(n // 3 + 1, 7, 15) * 3)[:n])[k]
            for i, (kind, z) in enumerate(others(d)):
                if not c.next():
                    continue
                c.desc(f'{n} bytes of kind {k}, other {kind} stream {i}')
                for step in (0, 1, 13):
                    for o in ((1 << 30,), (1,), (509,)) if n < 1000 else ((1 << 30,), (509,)):
                        take(c, kind, z, d, o, f'{n} bytes of kind {k}, other stream {i}', (), step)
                early(c, kind, z, d, f'{n} bytes of kind {k}, other stream {i}')
                if n < 5000 or len(z) < 100 or th:
                    cut(c, kind, z, d, f'{n} bytes of kind {k}, other stream {i}')
    for n in (0, 1, 2, 7, 60, 600):
        for k in range(3):
            d = (bytes(n), gen.lcg(n, 6), (gen.lcg(n // 3 + 1, 7, 15) * 3)[:n])[k]
            for kind in ('lzma', 'bz2', 'lz4', 'zstd'):
                if c.next():
                    c.desc(f'{n} bytes of kind {k}, {kind}, cut')
                    cut(c, kind, comp(kind, (d,)), d, f'{n} bytes of kind {k}')
    # the compressed form ends in every place around a block
    for n in itertools.chain(range(4040, 4110), range(8130, 8200) if th else (8187, 8188, 8189, 8190, 8191, 8192)):
        for kind in ALL:
            if not c.next():
                continue
            c.desc(f'{n} random bytes {kind}')
            d = gen.lcg(n, 8)
            check(c, d, f'{n} random bytes', ((d,),), (0,), ((1 << 30,), (n - 1, 1)), (kind,))


pyrun.main(enumerate_)
