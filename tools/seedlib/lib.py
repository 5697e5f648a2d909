"""Shared by the demonstrations: the C library and the Python package of the current directory (/repo, built)."""
import atexit, ctypes, glob, os, shutil, subprocess, sys, tempfile, types

REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, TMP, ignore_errors=True)
NONE, LZMA, CRLE, BZ2, HS = 0, 1, 2, 3, 4
READ = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t)
SEEK = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_int)
MREAD = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t)
MWRITE = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_size_t)
MERASE = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t)
STEPSET = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_int)
STEPGET = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.POINTER(ctypes.c_int))


def check(ok, what):
    if not ok:
        print('DEMO: broken:', what)
        sys.exit(1)


def size(n):
    s, v = (0x40, -n) if n < 0 else (0, n)
    b = bytearray([s | v & 0x3f])
    v >>= 6
    while v:
        b[-1] |= 0x80
        b.append(v & 0x7f)
        v >>= 7
    return bytes(b)


def body(recs, frm=None):
    """recs: (diff, extra, adjustment)"""
    return size(0) + b''.join(size(len(d)) + d + size(len(e)) + e + size(a) for d, e, a in recs)


def seq(to_size, payload, comp=NONE):
    return bytes([comp]) + size(to_size) + payload


def inp(memory, segment, shift, frm, to, payload, comp=NONE):
    return bytes([0x10 | comp]) + b''.join(map(size, (memory, segment, shift, frm, to))) + payload


def hs(bits, w, l):
    """A heatshrink stream of lit() and ref()."""
    s = ''.join(bits)
    s += '0' * (-len(s) % 8)
    return bytes([(w - 4) << 4 | (l - 3)]) + bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def lit(b):
    return '1' + format(b, '08b')


def ref(back, count, w, l):
    return '0' + format(back - 1, '0%db' % w) + format(count - 1, '0%db' % l)


def usize(n):
    b = bytearray([n & 0x7f])
    n >>= 7
    while n:
        b[-1] |= 0x80
        b.append(n & 0x7f)
        n >>= 7
    return bytes(b)


def crle_scattered(d):
    return b'\0' + usize(len(d)) + d


def crle_repeated(n, v):
    return b'\1' + usize(n) + bytes([v])


class C:
    def __init__(self, *flags, extra=(), dynamic=False):
        so = os.path.join(TMP, 'c%d.so' % len(os.listdir(TMP)))
        c = 'c'
        if dynamic:
            c = so + '.src'
            shutil.copytree('c', c)
            conf = open(c + '/heatshrink/heatshrink_config.h').read()
            open(c + '/heatshrink/heatshrink_config.h', 'w').write(conf.replace('DYNAMIC_ALLOC 0', 'DYNAMIC_ALLOC 1'))
        subprocess.run(['gcc', '-g', '-O1', '-shared', '-fPIC', '-w', *flags, '-I', c, '-I', c + '/heatshrink', c + '/detools.c', c + '/heatshrink/heatshrink_decoder.c', *extra, '-llzma', '-o', so], check=True)
        self.l = ctypes.CDLL(so)

    def session(self, frm, patch_size, hook=lambda *a: 0):
        return Session(self.l, frm, patch_size, hook)

    def apply(self, frm, patch, chunks=None, hook=lambda *a: 0):
        """Returns (result, to-data written)."""
        s = self.session(frm, len(patch), hook)
        r, i = 0, 0
        for n in (chunks or [len(patch)]):
            if i >= len(patch) or r < 0:
                break
            r = s.process(patch[i:i + n])
            i += n
        f = s.finalize()
        return (r if r < 0 else f), bytes(s.out)

    def in_place(self, mem, patch, hook=lambda *a: 0, step=None, chunks=None):
        return InPlace(self.l, mem, len(patch), hook, step).run(patch, chunks)


class Session:
    def __init__(self, l, frm, patch_size, hook=lambda *a: 0):
        self.l, self.frm, self.pos, self.out, self.hook = l, frm, 0, bytearray(), hook
        self.obj = ctypes.create_string_buffer(1 << 16)
        self.cb = (READ(self.read), SEEK(self.seek), READ(self.write))
        r = l.detools_apply_patch_init(self.obj, self.cb[0], self.cb[1], ctypes.c_size_t(patch_size), self.cb[2], None)
        check(r == 0, 'init')

    def read(self, a, p, n):
        r = self.hook('read', n)
        if r:
            return r
        if not 0 <= self.pos <= len(self.frm) - n:
            return -1
        ctypes.memmove(p, self.frm[self.pos:self.pos + n], n)
        self.pos += n
        return 0

    def seek(self, a, o):
        r = self.hook('seek', o)
        if r:
            return r
        self.pos += o
        return 0

    def write(self, a, p, n):
        r = self.hook('write', n)
        if r:
            return r
        self.out += ctypes.string_at(p, n)
        return 0

    def process(self, d):
        b = ctypes.create_string_buffer(bytes(d), len(d) or 1)
        return self.l.detools_apply_patch_process(self.obj, b, ctypes.c_size_t(len(d)))

    def finalize(self):
        return self.l.detools_apply_patch_finalize(self.obj)

    def dump(self):
        st = bytearray()
        cb = READ(lambda a, p, n: st.extend(ctypes.string_at(p, n)) or 0)
        r = self.l.detools_apply_patch_dump(self.obj, cb)
        return r, bytes(st)

    def restore(self, st):
        pos = [0]

        def rd(a, p, n):
            ctypes.memmove(p, st[pos[0]:pos[0] + n], n)
            pos[0] += n
            return 0
        cb = READ(rd)
        return self.l.detools_apply_patch_restore(self.obj, cb)

    def offsets(self):
        self.l.detools_apply_patch_get_patch_offset.restype = ctypes.c_size_t
        self.l.detools_apply_patch_get_to_offset.restype = ctypes.c_size_t
        return self.l.detools_apply_patch_get_patch_offset(self.obj), self.l.detools_apply_patch_get_to_offset(self.obj)


class InPlace:
    """hook(kind, ...) is asked before every operation; non-zero makes it fail. step: a list with the stored step."""
    def __init__(self, l, mem, patch_size, hook, step):
        self.l, self.mem, self.hook, self.step, self.ops = l, bytearray(mem), hook, step, []
        self.obj = ctypes.create_string_buffer(1 << 16)
        self.cb = (MREAD(self.read), MWRITE(self.write), MERASE(self.erase), STEPSET(self.set), STEPGET(self.get))
        none = ctypes.cast(None, STEPSET), ctypes.cast(None, STEPGET)
        s, g = (self.cb[3], self.cb[4]) if step is not None else none
        l.detools_apply_patch_in_place_init(self.obj, self.cb[0], self.cb[1], self.cb[2], s, g, ctypes.c_size_t(patch_size), None)

    def op(self, *a):
        r = self.hook(*a)
        self.ops.append(a)
        return r

    def read(self, a, p, src, n):
        r = self.op('read', src, n)
        if r:
            return r
        if src + n > len(self.mem):
            return -1
        ctypes.memmove(p, bytes(self.mem[src:src + n]), n)
        return 0

    def write(self, a, dst, p, n):
        r = self.op('write', dst, n)
        if r:
            return r
        if dst + n > len(self.mem):
            return -1
        self.mem[dst:dst + n] = ctypes.string_at(p, n)
        return 0

    def erase(self, a, addr, n):
        r = self.op('erase', addr, n)
        if r:
            return r
        if addr + n > len(self.mem):
            return -1
        self.mem[addr:addr + n] = b'\xff' * n
        return 0

    def set(self, a, s):
        r = self.op('set', s)
        if r:
            return r
        self.step[0] = s
        return 0

    def get(self, a, p):
        r = self.op('get')
        if r:
            return r
        p[0] = self.step[0]
        return 0

    def run(self, patch, chunks=None):
        r, i = 0, 0
        for n in (chunks or [len(patch)]):
            if r < 0:
                break
            d = patch[i:i + n]
            i += n
            r = self.l.detools_apply_patch_in_place_process(self.obj, ctypes.create_string_buffer(d, len(d) or 1), ctypes.c_size_t(len(d)))
        f = self.l.detools_apply_patch_in_place_finalize(self.obj)
        return (r if r < 0 else f), bytes(self.mem), self.ops


def py():
    """The Python package, with a stand-in for the extension whose sources are missing."""
    d = os.path.join(TMP, 'py')
    shutil.copytree('detools', d + '/detools', ignore=lambda p, n: [x for x in n if x in ('HDiffPatch', '__pycache__') or x.endswith('.so')])
    for so in glob.glob('_build/*.so'):
        shutil.copy(so, d + '/detools')
    sys.path.insert(0, d)
    m = types.ModuleType('detools.hdiffpatch')
    m.create_patch = m.apply_patch = None
    sys.modules['detools.hdiffpatch'] = m
    import detools
    return detools
