"""Independent readers of the patch formats, used as oracles by the Python harnesses."""
import bz2, io, lzma
import heatshrink2, lz4.frame, zstandard

COMP = ['none', 'lzma', 'crle', 'bz2', 'heatshrink', 'zstd', 'lz4']
IN_C = ('none', 'lzma', 'crle', 'heatshrink')


class Bad(Exception):
    pass


class Odd(Exception):
    """Not covered by the format description; either answer is fine."""


def size(v):
    neg, v = v < 0, abs(v)
    b = bytearray([v & 0x3f | (0x80 if v > 0x3f else 0) | (0x40 if neg else 0)])
    v >>= 6
    while v:
        b.append(v & 0x7f | (0x80 if v > 0x7f else 0))
        v >>= 7
    return bytes(b)


def usize7(v):
    b = bytearray()
    while True:
        b.append(v & 0x7f | (0x80 if v > 0x7f else 0))
        v >>= 7
        if not v:
            return bytes(b)


class R:
    """Reads sizes and bytes of a buffer."""
    def __init__(self, b, at=0):
        self.b, self.at = b, at

    def take(self, n):
        if n < 0 or n > len(self.b) - self.at:
            raise Bad('out of data')
        self.at += n
        return self.b[self.at - n:self.at]

    def size(self):
        c = self.take(1)[0]
        neg, v, sh = c & 0x40, c & 0x3f, 6
        while c & 0x80:
            c = self.take(1)[0]
            v |= (c & 0x7f) << sh
            sh += 7
        return -v if neg else v

    @property
    def left(self):
        return len(self.b) - self.at


def crle(b, limit=1 << 26, part=False):
    """With part, the last segment may be cut: (data, whether it is not)."""
    out, r = bytearray(), R(b)
    while r.left:
        kind = r.take(1)[0]
        v = sh = 0
        while True:
            c = r.take(1)[0]
            v |= (c & 0x7f) << sh
            sh += 7
            if not c & 0x80:
                break
        if kind > 1:
            raise Bad('kind')
        if kind == 1 and v > limit:
            raise Odd('huge')
        if kind == 0 and v > r.left and part:
            return bytes(out) + r.take(r.left), False
        out += r.take(v) if kind == 0 else r.take(1) * v
    return (bytes(out), True) if part else bytes(out)


def hs(b):
    """Heatshrink, first byte is the settings. Independent of the heatshrink2 package."""
    if not b:
        raise Bad('empty')
    w, l = (b[0] >> 4) + 4, (b[0] & 15) + 3
    bits = len(b) * 8 - 8
    at = 0
    out = bytearray()

    def get(n):
        nonlocal at
        i, at = at, at + n
        last = (at + 7) // 8
        return int.from_bytes(b[1 + i // 8:1 + last], 'big') >> (last * 8 - at) & ((1 << n) - 1)
    while at < bits:
        literal = get(1)
        if literal and at + 8 <= bits:
            out.append(get(8))
        elif not literal and at + w + l <= bits:
            i, n = get(w) + 1, get(l) + 1
            for _ in range(n):
                out.append(out[-i] if i <= len(out) else 0)
        else:
            break
    return bytes(out)


def plain(comp, b):
    """(payload, whether the stream says it is complete, bytes after it)"""
    if comp == 'none':
        return bytes(b), True, 0
    if comp == 'crle':
        p, whole = crle(b, part=True)
        return p, True, not whole
    if comp == 'heatshrink':
        return hs(b), True, 0
    if comp == 'lzma':
        d = lzma.LZMADecompressor()
    elif comp == 'bz2':
        d = bz2.BZ2Decompressor()
    elif comp == 'lz4':
        d = lz4.frame.LZ4FrameDecompressor()
    elif comp == 'zstd':
        d = zstandard.ZstdDecompressor().decompressobj()
    try:
        out = d.decompress(bytes(b))
    except Exception as e:
        raise Bad(str(e))
    return out, d.eof, len(d.unused_data or b'')


def records(r, to_size):
    """Diff, extra, adjustment until to_size bytes are described."""
    res, n = [], 0
    while n < to_size:
        d = r.size()
        if d < 0 or n + d > to_size:
            raise Bad('diff size')
        n += d
        diff = r.take(d)
        e = r.size()
        if e < 0 or n + e > to_size:
            raise Bad('extra size')
        n += e
        extra = r.take(e)
        res.append((diff, extra, r.size()))
    return res


def add(a, b):
    return bytes((x + y) & 255 for x, y in zip(a, b))


def apply_records(recs, from_, pos=0):
    out = bytearray()
    for diff, extra, adj in recs:
        if diff and pos < 0:
            raise Bad('before the from-data')
        f = from_[pos:pos + len(diff)] if diff else b''
        if len(f) != len(diff):
            raise Bad('from-data runs out')
        out += add(diff, f)
        out += extra
        pos += len(diff) + adj
    return bytes(out)


def sequential(from_, patch):
    """(to-data, records) of a sequential patch without data format."""
    r = R(patch)
    h = r.take(1)[0]
    if h >> 4 & 7 == 2:
        raise Odd('hdiffpatch')
    if h >> 4 & 7 != 0 or h & 15 >= len(COMP):
        raise Bad('header')
    to_size = r.size()
    if to_size < 0:
        raise Bad('negative to-size')
    if to_size == 0:
        return b'', []
    p, eof, unused = plain(COMP[h & 15], patch[r.at:])
    q = R(p)
    if q.size() != 0:
        raise Odd('data format')
    recs = records(q, to_size)
    out = apply_records(recs, from_)
    if q.left:
        raise Bad('data after the last record')
    if not eof:
        raise Bad('no end of stream')
    if unused:
        raise Odd('data after the stream')
    return out, recs


def in_place_header(patch):
    r = R(patch)
    h = r.take(1)[0]
    if h >> 4 & 7 != 1 or h & 15 >= len(COMP):
        raise Bad('header')
    return (COMP[h & 15], *[r.size() for _ in range(5)], r)


def in_place(mem, patch):
    """(memory, [records of each segment])"""
    comp, ms, ss, sh, fs, ts, r = in_place_header(patch)
    if ts < 0 or (ts > 0 and min(ms, ss, sh, fs) < 0):
        raise Bad('negative')
    if ts == 0:
        if min(ms, ss, sh, fs) < 0 or sh > ms or fs > ms or len(mem) < ms:
            raise Odd('nothing to do')
        return bytes(mem), []
    if ss <= 0:
        raise Bad('segment size')
    if len(mem) < ms or sh > ms or ts > ms:
        raise Bad('sizes')
    if fs > ms:
        raise Odd('from-data larger than the memory')
    p, eof, unused = plain(comp, patch[r.at:])
    q = R(p)
    m = bytearray(mem)
    moved = bytes(m[:fs][:ms - sh])
    m[sh:sh + len(moved)] = moved
    segs = []
    for i, at in enumerate(range(0, ts, ss)):
        n = min(ss, ts - at)
        if q.size() != 0:
            raise Odd('data format')
        recs = records(q, n)
        segs.append(recs)
        pos, out = max(ss * (i + 1), sh), at
        for diff, extra, adj in recs:
            # from-data is read while the segment is being written
            if diff and pos < 0:
                raise Bad('before the memory')
            if diff and pos < at + n and pos + len(diff) > at:
                raise Odd('reads what is being written')
            f = bytes(m[pos:pos + len(diff)])
            if len(f) != len(diff):
                raise Bad('from-data runs out')
            if diff and (pos < sh or pos + len(diff) > sh + len(moved)):
                raise Odd('reads outside the from-data')
            m[out:out + len(diff)] = add(diff, f)
            out += len(diff)
            m[out:out + len(extra)] = extra
            out += len(extra)
            pos += len(diff) + adj
    if q.left:
        raise Bad('data after the last record')
    if not eof:
        raise Bad('no end of stream')
    if unused:
        raise Odd('data after the stream')
    return bytes(m), segs


def off(b):
    v = int.from_bytes(b, 'little')
    return -(v & (1 << 63) - 1) if v >> 63 else v


def bsdiff(from_, patch):
    """(to-data, control triples) of a BSDIFF40 file."""
    if patch[:8] != b'BSDIFF40' or len(patch) < 32:
        raise Bad('header')
    cs, ds, ts = off(patch[8:16]), off(patch[16:24]), off(patch[24:32])
    if min(cs, ds, ts) < 0 or 32 + cs + ds > len(patch):
        raise Bad('sizes')
    parts = []
    unused = 0
    for b in (patch[32:32 + cs], patch[32 + cs:32 + cs + ds], patch[32 + cs + ds:]):
        d = bz2.BZ2Decompressor()
        try:
            parts.append(R(d.decompress(b)))
        except Exception as e:
            raise Bad(str(e))
        if not d.eof:
            raise Bad('no end of stream')
        unused += len(d.unused_data)
    ctrl, diff, extra = parts
    out, pos, triples = bytearray(), 0, []
    while len(out) < ts:
        a, b, adj = [off(ctrl.take(8)) for _ in range(3)]
        if a < 0 or b < 0 or len(out) + a + b > ts:
            raise Bad('record')
        if a and pos < 0:
            raise Bad('before the from-data')
        f = from_[pos:pos + a] if a else b''
        if len(f) != a:
            raise Bad('from-data runs out')
        out += add(diff.take(a), f)
        out += extra.take(b)
        pos += a + adj
        triples.append((a, b, adj))
    if ctrl.left or diff.left or extra.left:
        raise Bad('data left')
    if unused:
        raise Odd('data after a stream')
    return bytes(out), triples


def sizes_of(recs):
    """Number of bytes the sizes of the records take."""
    return sum(len(size(v)) for d, e, a in recs for v in (len(d), len(e), a))


def describe(patch):
    """What the patch says, without applying it: a dict."""
    r = R(patch)
    h = r.take(1)[0]
    t, comp = h >> 4 & 7, COMP[h & 15]
    assert t in (0, 1)
    d = {'type': ('sequential', 'in-place')[t], 'compression': comp, 'segments': []}
    if t == 1:
        for k in ('memory', 'segment', 'shift', 'from'):
            d[k] = r.size()
    d['to'] = r.size()
    d['hs'] = None
    if d['to'] == 0:
        return d
    if comp == 'heatshrink':
        b = patch[r.at]
        d['hs'] = (b >> 4) + 4, (b & 15) + 3
    p, eof, unused = plain(comp, patch[r.at:])
    if not eof or unused:
        raise Bad('end of stream')
    q = R(p)
    step = d['segment'] if t else d['to']
    for at in range(0, d['to'], step):
        df = q.size()
        fmt, dfpatch = None, b''
        if df:
            fmt = q.size()
            dfpatch = q.take(df)
        d['segments'].append((fmt, dfpatch, records(q, min(step, d['to'] - at))))
    if q.left:
        raise Bad('data after the last record')
    return d


def df_blocks(fmt, b):
    """The data format part of a patch: (pointer headers, [[(from offset, to address, values)]])."""
    q = R(b)
    data = [q.size() for _ in range(3)] if q.take(1) == b'\1' else None
    code = [q.size() for _ in range(2)] if q.take(1) == b'\1' else None
    heads = []
    for present in [data, code] + [True] * (4, 8, 1)[fmt]:
        heads.append([tuple(q.size() for _ in range(3)) for _ in range(q.size())] if present else [])
    out = []
    for hs_ in heads:
        at = q.at
        out.append(([(f, t, [q.size() for _ in range(n)]) for f, t, n in hs_], q.at - at))
    if q.left:
        raise Bad('data format patch too long')
    return data, code, out
