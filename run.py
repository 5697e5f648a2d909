#!/usr/bin/env python3
"""Driver: builds what a check needs from /repo's working tree, runs the
exhaustive explorations of the check, replays any violation in a fresh process
before reporting it, and writes the evidence file.

  run.py ID [--tier quick|thorough]      decide one property
  run.py ID --replay FILE                re-execute a recorded violation
"""
import sys, os, json, subprocess, time, hashlib, shutil, argparse, concurrent.futures

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(VERIF, 'src')
OUT = os.environ.get('VERIF_OUT', VERIF)     # evidence/ and replays/ go here
PY = '/opt/detools/venv/bin/python3'
if not os.path.exists(PY):
    PY = sys.executable
sys.path.insert(0, VERIF)

CC, CXX = 'gcc', 'g++'
C_FLAGS = ['-std=c99', '-g', '-O1', '-fno-omit-frame-pointer', '-w']
CXX_FLAGS = ['-std=c++17', '-g', '-O2', '-fno-omit-frame-pointer', '-w']
SAN = {
    'none': [],
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'msan': ['-fsanitize=memory', '-fno-sanitize-recover=all'],
    'tsan': ['-fsanitize=thread'],
}
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=99',
           MSAN_OPTIONS='exitcode=99:poison_in_malloc=0:poison_in_free=0', TSAN_OPTIONS='exitcode=99:halt_on_error=1',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(map(str, cmd)) + '\n' + r.stdout[-4000:])
    return r.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for root, dirs, files in sorted(os.walk(p)):
                dirs.sort()
                if '__pycache__' in root or '/tst' in root[len(p):]:
                    continue
                for f in sorted(files):
                    if f.endswith(('.c', '.h', '.hpp', '.cpp', '.py')):
                        fp = os.path.join(root, f)
                        h.update(fp.encode())
                        h.update(open(fp, 'rb').read())
        elif os.path.exists(p):
            h.update(p.encode())
            h.update(open(p, 'rb').read())
    return h.hexdigest()


def build_c(name, harness, san='none', defines=(), link=(), wrap=(), extra_c=(), cxxdefs=(),
            libs=('-llzma', '-lpthread'), repo=None):
    """Compiles detools.c + heatshrink_decoder.c (C) and a harness (C++); returns the program."""
    repo = repo or REPO
    d = os.path.join(BUILD, 'c', name)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'prog')
    cc, cxx = (('clang', 'clang++') if san in ('msan', 'tsan') else (CC, CXX))
    inc = ['-I', f'{repo}/c', '-I', f'{repo}/c/heatshrink', '-I', SRC]
    srcs = [f'{repo}/c/detools.c', f'{repo}/c/heatshrink/heatshrink_decoder.c'] + \
        [os.path.join(repo, x) for x in extra_c]
    key = hashlib.sha256(repr((tree_hash([f'{repo}/c', SRC]), san, defines, link, wrap, extra_c, cxxdefs,
                               libs, C_FLAGS, CXX_FLAGS, SAN[san], harness)).encode()).hexdigest()
    stamp = os.path.join(d, 'stamp')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    dd = ['-D' + x for x in defines]
    objs = []
    procs = []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + '.o')
        objs.append(o)
        procs.append([cc] + C_FLAGS + SAN[san] + inc + dd + ['-c', s, '-o', o])
    ho = os.path.join(d, 'harness.o')
    objs.append(ho)
    procs.append([cxx] + CXX_FLAGS + SAN[san] + inc + dd + ['-D' + x for x in cxxdefs] +
                 (['-DVERIF_MSAN', '-fno-sanitize=memory'] if san == 'msan' else []) +
                 ['-c', os.path.join(SRC, harness), '-o', ho])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, procs))
    sh([cxx] + CXX_FLAGS + SAN[san] + objs + ['-Wl,--wrap=' + w for w in wrap] + list(link) +
       list(libs) + ['-o', exe])
    with open(stamp, 'w') as f:
        f.write(key)
    return exe


def build_py(san='none'):
    """The detools package of the repository (without hdiffpatch, whose sources it does not have)
    and the C library as a shared object. Returns the environment that selects them."""
    d = os.path.join(BUILD, 'py', san)
    key = hashlib.sha256((tree_hash([f'{REPO}/detools', f'{REPO}/c', SRC]) + san).encode()).hexdigest()
    stamp = os.path.join(d, 'stamp')
    env = {'VERIF_PYLIB': d, 'VERIF_CLIB': os.path.join(d, 'capply.so'), 'VERIF_CLIB_DYN': os.path.join(d, 'capply-dyn.so')}
    if san == 'asan':
        env.update(LD_PRELOAD=sh([CC, '-print-file-name=libasan.so']).strip(), PYTHONMALLOC='malloc')
    if os.path.exists(stamp) and open(stamp).read() == key:
        return env
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(f'{REPO}/detools', os.path.join(d, 'detools'),
                    ignore=lambda p, names: [n for n in names if n.endswith('.so') or n in ('__pycache__', 'HDiffPatch')])
    inc = sh([PY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])']).strip()
    flags = ['-g', '-O2', '-fPIC', '-w', '-shared'] + (['-fsanitize=address'] if san == 'asan' else [])
    extra = []
    if san == 'fault':
        flags += [f'-D{f}=vf_{f}' for f in ('malloc', 'calloc', 'realloc', 'free')]
        extra = [os.path.join(SRC, 'vfmalloc.c')]
    s = f'{REPO}/detools/'
    cmds = [[CC] + flags + ['-I' + inc, s + 'suffix_array.c', s + 'sais/sais.c', s + 'libdivsufsort/divsufsort.c',
                            *extra, '-o', os.path.join(d, 'detools', 'suffix_array.so')],
            [CC] + flags + ['-I' + inc, s + 'bsdiff.c', *extra, '-o', os.path.join(d, 'detools', 'bsdiff.so')],
            [CC] + flags + ['-I', f'{REPO}/c', '-I', f'{REPO}/c/heatshrink', f'{REPO}/c/detools.c',
                            f'{REPO}/c/heatshrink/heatshrink_decoder.c', os.path.join(SRC, 'capply.c'), *extra, '-llzma',
                            '-o', os.path.join(d, 'capply.so')]]
    cmds.append(cmds[-1][:-1] + [os.path.join(d, 'capply-dyn.so'), '-DHEATSHRINK_DYNAMIC_ALLOC=1'])
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(sh, cmds))
    with open(stamp, 'w') as f:
        f.write(key)
    return env


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> :: <what fails>` suppress exactly that key."""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith('finding: property=%s key=' % prop):
            head, what = line.split(' :: ', 1)
            res[head.split(' key=', 1)[1]] = what
    return res


def run_part(prop, part, tier, only=None, hang=None, tag=''):
    d = os.path.join(BUILD, 'run', prop, part['name'] + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = os.path.join(d, 'result.json')
    cmd = list(part['cmd']) + ['--tier', tier, '--jobs', str(part.get('jobs', 8)), '--out', out, '--tmp', d]
    cmd += ['--hang', str(hang or part.get('hang', 40))]
    if only is not None:
        cmd += ['--only', str(only)]
    if known_findings(prop):
        cmd += ['--known', ','.join(known_findings(prop))]
    env = dict(ENV, **part.get('env', {}))
    log = open(os.path.join(d, 'log'), 'w')
    r = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=d)
    if not os.path.exists(out):
        return {'status': 'error', 'msg': 'no result, exit %d: %s' % (
            r.returncode, open(os.path.join(d, 'log')).read()[-3000:])}
    try:
        return json.load(open(out))
    except ValueError:
        return {'status': 'error', 'msg': 'unreadable result, exit %d: %s' % (
            r.returncode, open(os.path.join(d, 'log')).read()[-3000:])}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--part')
    args = ap.parse_args()
    prop, tier = args.prop, args.tier
    t0 = time.time()
    import checks
    spec = checks.CHECKS[prop]
    os.makedirs(BUILD, exist_ok=True)
    try:
        parts = spec['parts'](tier)
    except Exception as e:
        if type(e).__name__ != "BuildError":
            raise
        print(f'{prop}: build failed\n{e}')
        if spec.get('build_failure_is_violation'):
            rp = write_replay(prop, {'part': 'build', 'msg': str(e)})
            print(f'VIOLATION property={prop} replay={rp}')
            return 1
        return 2
    if args.part:
        parts = [p for p in parts if p['name'] == args.part]
    if args.replay:
        rec = json.load(open(args.replay))
        part = [p for p in parts if p['name'] == rec['part']][0]
        r = run_part(prop, part, rec['tier'], only=rec['idx'], hang=180, tag='.replay')
        print(json.dumps(r, indent=1))
        return 0 if r['status'] == 'ok' else 1
    results = []
    for part in parts:
        r = run_part(prop, part, tier)
        if r['status'] == 'error':
            print(f'{prop}/{part["name"]}: {r["msg"]}')
            return 3
        if r['status'] != 'ok':
            # Replay alone, with a longer limit, before believing it.
            r2 = run_part(prop, part, tier, only=r['idx'], hang=180, tag='.replay')
            if r2['status'] == 'ok':
                if r['status'] == 'hang':
                    print(f'{prop}/{part["name"]}: case {r["idx"]} was slow, not hanging; running again')
                    r = run_part(prop, part, tier, hang=400)
                    if r['status'] != 'ok':
                        print(json.dumps(r, indent=1))
                        return 3
                    results.append((part, r))
                    continue
                print(f'{prop}/{part["name"]}: violation did not reproduce: {json.dumps(r)}')
                return 3
            rp = write_replay(prop, {'property': prop, 'part': part['name'], 'tier': tier, 'idx': r['idx'],
                                     'status': r2['status'], 'case': r2.get('desc'), 'msg': r2.get('msg'),
                                     'log': r2.get('log'),
                                     'replay_with': f'python3 run.py {prop} --tier {tier} --replay <this file>'})
            print(f'{prop}/{part["name"]}: {r2["status"]}: case {r["idx"]}: {r2.get("desc")}\n'
                  f'{r2.get("msg")}\n{(r2.get("log") or "")[:3000]}')
            print(f'VIOLATION property={prop} replay={rp}')
            write_evidence(prop, tier, spec, results, t0, 1)
            return 1
        results.append((part, r))
        print(f'{prop}/{part["name"]}: ok, {r["wall"]:.1f} s, counters {r["counters"]}, distinct {r["distinct"]}')
    known = known_findings(prop)
    for k in sorted({k for _, r in results for k in r.get('findings', [])}):
        print(f'KNOWN-FINDING: property={prop} {known.get(k, k)}')
    write_evidence(prop, tier, spec, results, t0, 0)
    return 0


def write_replay(prop, rec):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}.json')
    with open(p, 'w') as f:
        json.dump(rec, f, indent=1)
    return p


def write_evidence(prop, tier, spec, results, t0, violations):
    tot = [sum(r['counters'][i] for _, r in results) for i in range(8)]
    samples = [s for _, r in results for s in r['samples']][:6]
    cov = {'samples': samples or ['(run ended by a violation)'], 'exhaustive': violations == 0}
    if spec['level'] == 'model_checking':
        cov.update(states=tot[1], transitions=tot[2], traces_validated_against_impl=tot[3])
        cov['rule'] = spec['rule']
        if tot[0]:
            cov['executions'] = tot[0]
    else:
        cov.update(evaluations=tot[0], distinct_nontrivial=sum(r['distinct'] for _, r in results),
                   rule=spec['rule'])
    cov['parts'] = {p['name']: {'wall_s': r['wall'], 'counters': r['counters'], 'distinct': r['distinct']}
                    for p, r in results}
    for i, n in enumerate(spec.get('extra_counters', [])):
        cov[n] = tot[4 + i]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': spec['level'], 'coverage': cov, 'assumptions': spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
