#!/usr/bin/env python3
"""seed.py ID... [--nocheck]: confirms planted bugs (tests pass, demo tells) and runs the property's check on them."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(V + '/seeded'))


def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def demo(d):
    t = tempfile.mkdtemp(prefix='demodir')
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(d, f), t)
    r = run('sh', t + '/demo.sh', cwd='/repo')
    shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr).strip()[-200:]


for i in ids:
    d = f'{V}/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    assert run('git', '-C', '/repo', 'status', '--porcelain').stdout == '', 'not clean'
    r0 = demo(d)
    a = run('git', '-C', '/repo', 'apply', d + '/patch.diff')
    if a.returncode:
        print(i, 'DOES NOT APPLY', a.stderr)
        continue
    try:
        t = run('sh', V + '/tools/repotest.sh')
        r1 = demo(d)
    finally:
        run('git', '-C', '/repo', 'checkout', '--', '.')
    ok = r0[0] == 0 and r1[0] != 0 and t.returncode == 0
    print(i, meta['property'], 'confirmed' if ok else f'NOT CONFIRMED clean {r0} tests {t.stdout[-300:]} patched {r1}', '|', r1[1].replace('\n', ' ')[:150], flush=True)
    if ok and '--nocheck' not in sys.argv:
        r = run('sh', V + '/tools/mut.sh', d + '/patch.diff', meta['property'])
        print('   ', r.stdout.strip()[:400], flush=True)
run('bash', '/opt/vp/build.sh')
