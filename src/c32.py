# C32: hdiffpatch and match-blocks patches carry what the differ made, and give it to the patcher.
# The differ itself is not in the tree: a stand-in records what it is asked and gives back chosen data.
import io, itertools, sys
import pyrun
pyrun.load()
import detools
from detools.errors import Error
import cli as cl
import gen, ref
import humanfriendly
C = pyrun.CLib()
ALL = ('none', 'crle', 'heatshrink', 'lzma', 'bz2', 'lz4', 'zstd')
NUM = {'none': 0, 'lzma': 1, 'crle': 2, 'bz2': 3, 'heatshrink': 4, 'zstd': 5, 'lz4': 6}
CLI_COMP = ALL
E = sys.modules['detools.hdiffpatch']
calls = []
engine = {}


def create(frm, to, match_score, match_block_size, patch_type):
    calls.append(('create', bytes(memoryview(frm)), bytes(memoryview(to)), match_score, match_block_size, patch_type))
    if engine['fail']:
        raise RuntimeError('differ')
    return bytearray(engine['data'])


def apply(frm, patch):
    if type(frm) is not bytes or type(patch) is not bytes:      # as the extension demands
        raise TypeError('expected bytes')
    calls.append(('apply', frm, patch))
    if engine['fail']:
        raise RuntimeError('patcher')
    return bytearray(engine['to'])


E.create_patch, E.apply_patch = create, apply


def short(d):
    return d.hex() if len(d) < 40 else f'{len(d)} bytes {d[:20].hex()}...'


def run(f, *a, **kw):
    del calls[:]
    try:
        return f(*a, **kw), None
    except Exception as e:
        return None, e


def head(kind, comp, to, data):
    b = bytes([kind << 4 | NUM[comp]]) + ref.size(len(to))
    return b + (ref.size(len(data)) if kind == 2 else b'')


def check(c, alg, kind, a, b, data, comp, what, opts={}, how='stream', recs=None):
    """One patch made, looked at and applied; data is what the differ gives back."""
    engine.update(data=data, to=b, fail=False)
    what = f'{what}: {alg}, {kind}, {comp}, from {short(a)}, to {short(b)}, differ gives {short(data)}, {opts}, {how}'
    c.count(0)
    c.seen(alg, kind, a, b, data, comp, opts, how)
    kw = dict(compression=comp, algorithm=alg, patch_type=kind, **opts)
    if how == 'stream':
        p = io.BytesIO()
        r, e = run(detools.create_patch, io.BytesIO(a), io.BytesIO(b), p, **kw)
        patch = p.getvalue()
    else:
        cl.put('f', a)
        cl.put('t', b)
        cl.wipe('p')
        if how == 'files':
            r, e = run(detools.create_patch_filenames, 'f', 't', 'p', **kw)
        else:
            argv = ['create_patch', '-a', alg, '-t', kind, '-c', comp]
            for k, v in opts.items():
                argv += ['--' + k.replace('_', '-').replace('use-mmap', 'no-mmap')] + ([] if k == 'use_mmap' else [str(v)])
            del calls[:]
            code, out, err = cl.cli(c, *argv, 'f', 't', 'p')
            e = code and err
        patch = cl.get('p')
    if e:
        c.fail(f'{what}: {type(e).__name__} {e}')
    num = 2 if kind == 'hdiffpatch' else 0
    asked = ('create', a, b, opts.get('match_score', 6), 0, 2) if alg == 'hdiffpatch' else \
        ('create', a, b, 0, opts.get('match_block_size', 64), num)
    if calls != [asked]:
        c.fail(f'{what}: the differ is called with {[x[3:] for x in calls]} or other data')
    h = head(num, comp, b, data)
    if patch[:len(h)] != h:
        c.fail(f'{what}: the patch starts with {patch[:len(h)].hex()} instead of {h.hex()}')
    body, eof, unused = ref.plain(comp, patch[len(h):]) if num == 2 or b else (b'', True, len(patch) - len(h))
    want = bytes(data) if num == 2 else (ref.size(0) + bytes(data) if b else b'')
    if body != want or not eof or unused:
        c.fail(f'{what}: the patch holds {short(body)}, end of stream {eof}, {unused} bytes after it')
    if comp == 'heatshrink' and len(patch) > len(h) and patch[len(h)] != (opts.get('heatshrink_window_sz2', 8) - 4) << 4 | opts.get('heatshrink_lookahead_sz2', 7) - 3:
        c.fail(f'{what}: heatshrink parameters {patch[len(h)]:02x}')
    # information
    r, e = run(detools.patch_info, io.BytesIO(patch))
    if e:
        c.fail(f'{what}: patch_info: {type(e).__name__} {e}')
    wl = (opts.get('heatshrink_window_sz2', 8), opts.get('heatshrink_lookahead_sz2', 7))
    ci = {'window-sz2': wl[0], 'lookahead-sz2': wl[1]} if comp == 'heatshrink' and b else None
    if num == 2:
        if r != ('hdiffpatch', (len(patch), comp, ci, len(b))):
            c.fail(f'{what}: patch_info says {r}')
    elif r[0] != 'sequential' or r[1][:6] != (len(patch), comp, ci, 0, None, None) or r[1][6] != len(b) or \
            b and r[1][7:10] != ([len(d) for d, _, _ in recs], [len(x) for _, x, _ in recs], [j for _, _, j in recs]):
        c.fail(f'{what}: patch_info says {r}')
    if num == 2 and how == 'cli':
        for flags in ((), ('--no-human',)):
            fs = (lambda v: f'{v} bytes') if flags else lambda v: humanfriendly.format_size(v, binary=True)
            code, out, err = cl.cli(c, 'patch_info', *flags, 'p')
            ratio = f'{round(100 * len(patch) / len(b), 1)}' if b else 'inf'
            lines = ['Type:               hdiffpatch', f'Patch size:         {fs(len(patch))}', f'To size:            {fs(len(b))}',
                     f'Patch/to ratio:     {ratio} % (lower is better)',
                     f'Compression:        {comp}' + (f' (window-sz2: {wl[0]}, lookahead-sz2: {wl[1]})' if ci else '')]
            if code or out.splitlines() != lines:
                c.fail(f'{what}: patch_info {flags}: {code} {out!r} {err!r}')
    # applying
    if how == 'stream':
        o = io.BytesIO()
        r, e = run(detools.apply_patch, io.BytesIO(a), io.BytesIO(patch), o)
        o = o.getvalue()
    elif how == 'files':
        cl.wipe('o')
        r, e = run(detools.apply_patch_filenames, 'f', 'p', 'o')
        o = cl.get('o')
    else:
        cl.wipe('o')
        del calls[:]
        code, out, err = cl.cli(c, 'apply_patch', 'f', 'p', 'o')
        e = code and err
        r = len(b)
        o = cl.get('o')
    if e or r != len(b) or o != b:
        c.fail(f'{what}: applied: {r} {type(e).__name__} {e}, {short(o or b"")}')
    asked = [('apply', a, bytes(data))] if num == 2 and b else []
    if calls != asked and not (num == 2 and not b and calls == [('apply', a, bytes(data))]):
        c.fail(f'{what}: the patcher is called with {[tuple(short(y) for y in x[1:]) for x in calls]}')
    if num == 0 and comp in ('none', 'crle', 'heatshrink', 'lzma'):
        got = C.apply(a, patch)
        c.count(7)
        if got != b:
            c.fail(f'{what}: the C library gives {got if isinstance(got, int) else short(got)}')
    if num == 2 and not isinstance(C.apply(a, patch), int):
        c.fail(f'{what}: the C library takes it')
    return patch


def damaged(c, patch, a, b, data, what):
    """The patch is not applied as if it was whole: the patcher gets the data, or there is an error."""
    engine.update(to=b, fail=False)
    n = 0
    for k in range(len(patch)):
        o = io.BytesIO()
        r, e = run(detools.apply_patch, io.BytesIO(a), io.BytesIO(patch[:k]), o)
        c.count(5)
        if e is None and not (calls == [('apply', a, bytes(data))] and o.getvalue() == b):
            c.fail(f'{what}: applied after {k} of {len(patch)} bytes: {[tuple(short(y) for y in x[1:]) for x in calls]}')
        if e is not None and (calls or o.getvalue() or not isinstance(e, Error)):
            c.fail(f'{what}: {k} of {len(patch)} bytes: {type(e).__name__} {e}, patcher called {len(calls)} times, {len(o.getvalue())} bytes written')
        r, e = run(detools.patch_info, io.BytesIO(patch[:k]))
        if e is not None and not isinstance(e, Error):
            c.fail(f'{what}: patch_info of {k} of {len(patch)} bytes: {type(e).__name__} {e}')
    for f in (detools.apply_patch_in_place, ):
        m = io.BytesIO(a)
        r, e = run(f, m, io.BytesIO(patch))
        if not isinstance(e, Error) or m.getvalue() != a or calls:
            c.fail(f'{what}: taken as an in-place patch')


def encode(recs):
    return b''.join(ref.size(len(d)) + d + ref.size(len(e)) + e + ref.size(j) for d, e, j in recs)


def enumerate_(c):
    th = c.thorough
    A, B = gen.lcg(90, 1), gen.lcg(70, 2) + bytes(30)
    datas = [gen.lcg(n, 3) for n in (1, 2, 5, 19, 60, 63, 64, 65)] + [bytes(n) for n in (1, 6, 64, 300)]
    pairs = [(A, B), (b'', B), (A, b''), (b'', b''), (b'a', b'b'), (A, A)]
    # what is made, in every way, of small data
    for comp in ALL:
        for (a, b), data in itertools.product(pairs, datas):
            if not c.next():
                continue
            c.desc(f'{comp} from {short(a)} to {short(b)} differ {short(data)}')
            for how, mm in itertools.product(('stream', 'files', 'cli'), (True, False)):
                o = {} if mm else {'use_mmap': False}
                p = check(c, 'hdiffpatch', 'hdiffpatch', a, b, data, comp, 'small', o, how)
                check(c, 'match-blocks', 'hdiffpatch', a, b, data, comp, 'small', o, how)
            if b and len(data) < 70:
                damaged(c, p, a, b, data, f'{comp} {short(data)}')
    # all strings the differ may give
    for comp in ALL:
        for first in (b'\0', b'\1', b'\xff'):
            if not c.next():
                continue
            c.desc(f'{comp} differ gives {first.hex()} and more')
            for s in gen.strings(b'\0\1\xff', (5 if comp == 'lzma' else 7) if th else (3 if comp == 'lzma' else 5)):
                if s and s[:1] == first:
                    damaged(c, check(c, 'hdiffpatch', 'hdiffpatch', A, B, s, comp, 'strings'), A, B, s, f'{comp} {s.hex()}')
    # sizes
    sizes = [4094, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 70000] + ([1 << 20, (1 << 20) + 1] if th else [])
    for comp in ALL:
        for n in sizes:
            if not c.next():
                continue
            c.desc(f'{comp} {n} bytes')
            for data in (gen.lcg(n, 5), bytes(n), gen.lcg(n, 5, 3)):
                for a, b in ((A, B), (gen.lcg(n, 6), gen.lcg(n, 7))):
                    check(c, 'hdiffpatch', 'hdiffpatch', a, b, data, comp, 'sizes')
                    check(c, 'match-blocks', 'hdiffpatch', a, b, data, comp, 'sizes', how='files')
    # options reach the differ; heatshrink parameters
    for score in range(10):
        for size in (1, 4, 64, 1000, 4096, 1 << 20):
            if not c.next():
                continue
            c.desc(f'match score {score} block size {size}')
            for how in ('stream', 'files', 'cli'):
                check(c, 'hdiffpatch', 'hdiffpatch', A, B, datas[4], 'none', 'options', {'match_score': score}, how)
                check(c, 'hdiffpatch', 'hdiffpatch', A, B, datas[4], 'none', 'options', {'match_score': score, 'match_block_size': size}, how)
                check(c, 'match-blocks', 'hdiffpatch', A, B, datas[4], 'none', 'options', {'match_score': score, 'match_block_size': size}, how)
    for w in range(4, 16):
        for l in range(3, w):
            if not c.next():
                continue
            c.desc(f'heatshrink {w} {l}')
            o = {'heatshrink_window_sz2': w, 'heatshrink_lookahead_sz2': l}
            for data in datas:
                for how in ('stream', 'cli'):
                    check(c, 'hdiffpatch', 'hdiffpatch', A, B, data, 'heatshrink', 'parameters', o, how)
                check(c, 'match-blocks', 'hdiffpatch', A, B, data, 'heatshrink', 'parameters', o)
    # match-blocks gives records of a sequential patch
    frm = gen.lcg(60, 8)
    steps = [(0, 0, 0), (0, 3, 0), (5, 0, 2), (4, 2, -3), (0, 70, 9), (20, 1, -20)]
    for n in (1, 2, 3):
        for s in itertools.product(steps, repeat=n):
            if not c.next():
                continue
            recs, pos, ok = [], 0, True
            for i, (d, e, j) in enumerate(s):
                ok = ok and 0 <= pos and pos + d <= len(frm)
                recs.append((gen.lcg(d, i + 1), gen.lcg(e, i + 50), j))
                pos += d + j
            to = ref.apply_records(recs, frm) if ok else b''
            # the last record has to say something
            if not ok or pos < 0 or n > 1 and s[-1][:2] == (0, 0) or not to:
                continue
            c.desc(f'records {s}')
            for comp in ALL:
                for how in ('stream', 'files', 'cli') if n < 3 or th else ('stream',):
                    check(c, 'match-blocks', 'sequential', frm, to, encode(recs), comp, 'records', {}, how, recs)
    for comp in ALL:
        if not c.next():
            continue
        c.desc(f'empty to-data {comp}')
        for how in ('stream', 'files', 'cli'):
            check(c, 'match-blocks', 'sequential', frm, b'', b'', comp, 'records', {}, how, [])
            check(c, 'match-blocks', 'sequential', b'', b'', b'', comp, 'records', {}, how, [])
    # what fails
    for comp in ALL:
        for alg, kind in (('hdiffpatch', 'hdiffpatch'), ('match-blocks', 'hdiffpatch'), ('match-blocks', 'sequential')):
            if not c.next():
                continue
            c.desc(f'the differ fails, {alg} {kind} {comp}')
            for mm in (True, False):
                engine.update(fail=True, data=b'')
                p = io.BytesIO()
                r, e = run(detools.create_patch, io.BytesIO(A), io.BytesIO(B), p, compression=comp, algorithm=alg, patch_type=kind, use_mmap=mm)
                c.count(6)
                if not isinstance(e, RuntimeError) or len(calls) != 1:
                    c.fail(f'the differ fails: {type(e).__name__} {e}, called {len(calls)} times')
                if mm:
                    cl.put('f', A)
                    cl.put('t', B)
                    code, out, err = cl.cli(c, 'create_patch', '-a', alg, '-t', kind, '-c', comp, 'f', 't', 'p')
                    if code == 0 or 'differ' not in err:
                        c.fail(f'the differ fails: exit status {code} {err!r}')
            if kind == 'sequential':
                continue
            p = check(c, alg, kind, A, B, datas[3], comp, 'to fail')
            engine['fail'] = True
            o = io.BytesIO()
            r, e = run(detools.apply_patch, io.BytesIO(A), io.BytesIO(p), o)
            if not isinstance(e, RuntimeError) or o.getvalue():
                c.fail(f'the patcher fails: {type(e).__name__} {e}, {len(o.getvalue())} bytes written')
            cl.put('f', A)
            cl.put('p', p)
            code, out, err = cl.cli(c, 'apply_patch', 'f', 'p', 'o')
            if code == 0 or 'patcher' not in err:
                c.fail(f'the patcher fails: exit status {code} {err!r}')
    # combinations that do not exist
    for alg, kind in itertools.product(('bsdiff', 'hdiffpatch', 'match-blocks', 'x'), ('sequential', 'in-place', 'hdiffpatch', 'bsdiff', 'x')):
        if not c.next():
            continue
        c.desc(f'{alg} {kind}')
        good = (alg, kind) in (('bsdiff', 'sequential'), ('bsdiff', 'in-place'), ('bsdiff', 'bsdiff'), ('hdiffpatch', 'hdiffpatch'),
                               ('match-blocks', 'hdiffpatch'), ('match-blocks', 'sequential'))
        engine.update(fail=False, data=b'x', to=B)
        r, e = run(detools.create_patch, io.BytesIO(A), io.BytesIO(B), io.BytesIO(), compression='none', algorithm=alg, patch_type=kind,
                   memory_size=500, segment_size=100)
        c.count(6)
        if (e is None) != good:
            c.fail(f'algorithm {alg}, patch type {kind}: {type(e).__name__} {e}')
    for comp in ('', 'NONE', 'gzip', None, 0):
        if not c.next():
            continue
        c.desc(f'compression {comp!r}')
        for alg, kind in (('hdiffpatch', 'hdiffpatch'), ('match-blocks', 'hdiffpatch'), ('match-blocks', 'sequential')):
            engine.update(fail=False, data=b'x', to=B)
            r, e = run(detools.create_patch, io.BytesIO(A), io.BytesIO(B), io.BytesIO(), compression=comp, algorithm=alg, patch_type=kind)
            if not isinstance(e, Error):
                c.fail(f'compression {comp!r}: {type(e).__name__} {e}')
    c.sample('hdiffpatch patches of 19 bytes of every compression, and all their truncations')


if __name__ == '__main__':
    pyrun.main(enumerate_)
