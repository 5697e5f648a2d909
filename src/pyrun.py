"""Runs the cases of a Python harness in several processes. Same command line and result file as
src/run.hpp: prog --tier T --jobs N --out FILE --tmp DIR [--only IDX] [--hang SECONDS]."""
import argparse, ctypes, hashlib, json, mmap, os, resource, signal, sys, time, traceback, types

NC = 8


class Slot(ctypes.Structure):
    _fields_ = [('beat', ctypes.c_uint64), ('idx', ctypes.c_uint64), ('counters', ctypes.c_uint64 * NC),
                ('failed', ctypes.c_uint32), ('desc', ctypes.c_char * 4000), ('msg', ctypes.c_char * 4000)]


class Failed(BaseException):
    pass


def h64(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if not isinstance(p, (bytes, bytearray)):
            p = repr(p).encode()
        h.update(len(p).to_bytes(8, 'little'))
        h.update(p)
    return int.from_bytes(h.digest(), 'little')


class Ctx:
    def __init__(self):
        self.i = -1
        self.me = 0
        self.only = None
        self.distinct = set()
        self.samples = []
        self.findings = set()

    def next(self):
        """True when the next case is this worker's."""
        self.i += 1
        if self.only is not None:
            if self.i != self.only:
                return False
        elif (self.i * 0x9E3779B97F4A7C15 >> 32 & 0xffffffff) % self.jobs != self.me:
            return False
        self.s.beat += 1
        self.s.idx = self.i
        if SLOW:
            t = time.time()
            if t - self.t > 0.5:
                print('slow %.1f s before %d: %s' % (t - self.t, self.i, self.s.desc.decode()), file=sys.stderr)
            self.t = t
        return True

    def desc(self, d):
        self.s.desc = d.encode('ascii', 'replace')[:3999]

    def tick(self):
        self.s.beat += 1

    def count(self, k, n=1):
        self.s.counters[k] += n
        self.s.beat += 1

    def seen(self, *parts):
        self.distinct.add(h64(*parts))

    def sample(self, d):
        if len(self.samples) < 3:
            self.samples.append(d[:300])

    def fail(self, msg):
        self.s.msg = msg.encode('ascii', 'replace')[:3999]
        self.s.failed = 1
        raise Failed(msg)

    def finding(self, key, msg):
        """A violation of a kind that may be listed as known."""
        if key in self.known:
            self.findings.add(key)
            return
        self.fail(msg)


SLOW = os.environ.get('VERIF_SLOW')


def main(enumerate_, memory=3 << 30):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--out')
    ap.add_argument('--tmp')
    ap.add_argument('--only', type=int)
    ap.add_argument('--hang', type=float, default=40)
    ap.add_argument('--known', default='')
    a = ap.parse_args()
    jobs = 1 if a.only is not None else a.jobs
    m = mmap.mmap(-1, ctypes.sizeof(Slot) * jobs)
    slots = [Slot.from_buffer(m, ctypes.sizeof(Slot) * w) for w in range(jobs)]
    t0 = time.time()
    pids = {}
    for w in range(jobs):
        pid = os.fork()
        if pid:
            pids[w] = pid
            continue
        rc = 0
        try:
            fd = os.open(os.path.join(a.tmp, f'w{w}.err'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if memory and 'LD_PRELOAD' not in os.environ:
                resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
            c = Ctx()
            c.tier, c.thorough = a.tier, a.tier == 'thorough'
            c.known = set(a.known.split(','))
            c.jobs, c.me, c.only, c.s = jobs, w, a.only, slots[w]
            c.tmp = os.path.join(a.tmp, f'w{w}')
            c.t = time.time()
            os.makedirs(c.tmp, exist_ok=True)
            os.chdir(c.tmp)
            enumerate_(c)
            with open(os.path.join(a.tmp, f'w{w}.json'), 'w') as f:
                json.dump({'distinct': list(c.distinct), 'samples': c.samples, 'findings': list(c.findings), 'cases': c.i + 1}, f)
        except Failed:
            rc = 1
        except BaseException:
            slots[w].msg = ('unexpected exception\n' + traceback.format_exc()[-3500:]).encode('ascii', 'replace')
            slots[w].failed = 1
            rc = 1
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    beat, at = [0] * jobs, [time.time()] * jobs
    bad, kind, st = None, 'ok', 0
    while pids and bad is None:
        for w, pid in list(pids.items()):
            p, st_ = os.waitpid(pid, os.WNOHANG)
            if p:
                del pids[w]
                if st_:
                    bad, st = w, st_
                    kind = 'violation' if slots[w].failed else 'crash'
                    break
                continue
            if slots[w].beat != beat[w]:
                beat[w], at[w] = slots[w].beat, time.time()
            elif time.time() - at[w] > a.hang:
                bad, kind = w, 'hang'
                break
        time.sleep(0.01)
    for pid in pids.values():
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    res = {'status': kind, 'wall': round(time.time() - t0, 3),
           'counters': [sum(s.counters[k] for s in slots) for k in range(NC)], 'distinct': 0, 'samples': []}
    if bad is None:
        d, f, n = set(), set(), set()
        for w in range(jobs):
            p = os.path.join(a.tmp, f'w{w}.json')
            r = json.load(open(p))
            os.unlink(p)
            d.update(r['distinct'])
            n.add(r['cases'])
            f.update(r['findings'])
            if len(res['samples']) < 6:
                res['samples'] += r['samples']
        if len(n) != 1:         # the workers do not agree on what the cases are
            res.update(status='error', msg=f'numbers of cases differ: {sorted(n)}')
        res['cases'] = max(n)
        res['distinct'] = len(d)
        res['findings'] = sorted(f)
    else:
        s = slots[bad]
        res.update(idx=s.idx, desc=s.desc.decode(), msg=s.msg.decode(), wstatus=st,
                   log=open(os.path.join(a.tmp, f'w{bad}.err'), errors='replace').read()[:6000])
    json.dump(res, open(a.out, 'w'))
    os._exit(0 if bad is None else 1)


def load():
    """Imports the detools package built by run.py from the repository's sources."""
    if 'detools' in sys.modules:
        return sys.modules['detools']
    sys.path.insert(0, os.environ['VERIF_PYLIB'])
    stub = types.ModuleType('detools.hdiffpatch')     # its sources are not in the repository

    def no(*a, **k):
        raise NotImplementedError('hdiffpatch')
    stub.create_patch = stub.apply_patch = no
    sys.modules['detools.hdiffpatch'] = stub
    import detools
    return detools


class CLib:
    """The C library of the repository, through src/capply.c."""
    def __init__(self, dynamic=False):
        self.l = ctypes.CDLL(os.environ['VERIF_CLIB_DYN' if dynamic else 'VERIF_CLIB'])
        self.cap = 8 << 20
        self.out = ctypes.create_string_buffer(self.cap)
        self.l.vf_apply.restype = ctypes.c_int
        self.l.vf_in_place.restype = ctypes.c_int

    def apply(self, from_, patch, chunk=0):
        """Returns the to-data, or a negative error number."""
        cap, out = self.cap, self.out
        n = ctypes.c_size_t(0)
        r = self.l.vf_apply(bytes(from_), ctypes.c_size_t(len(from_)), bytes(patch), ctypes.c_size_t(len(patch)),
                            out, ctypes.c_size_t(cap), ctypes.byref(n), ctypes.c_size_t(chunk))
        if r < 0:
            return r
        assert r == n.value, (r, n.value)
        return ctypes.string_at(out, r)

    def in_place(self, mem, patch):
        """Returns (result, memory after)."""
        buf = ctypes.create_string_buffer(bytes(mem), len(mem) or 1)
        r = self.l.vf_in_place(buf, ctypes.c_size_t(len(mem)), bytes(patch), ctypes.c_size_t(len(patch)))
        return r, buf.raw[:len(mem)]
