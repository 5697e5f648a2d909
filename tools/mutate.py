#!/usr/bin/env python3
"""mutate.py FILE COUNT CHECK... [--seed N] [--workers N]: how many random small changes to FILE (relative to /repo) that
pass the repository's tests are noticed by the checks, run in turn until one does. To evaluate the machinery only: no check uses it.
Results are appended to /tmp/mu/<file>.log; the changes nobody noticed are kept as diffs in /tmp/mu/alive/."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/mu'
args = sys.argv[1:]


def opt(name, default):
    if name in args:
        i = args.index(name)
        v = args[i + 1]
        del args[i:i + 2]
        return v
    return default


SEED, WORKERS = int(opt('--seed', '1')), int(opt('--workers', '4'))
FILE, COUNT, CHECKS = args[0], int(args[1]), args[2:]
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
is_py = FILE.endswith('.py')


def swap(line, pat, rep):
    for m in re.finditer(pat, line):
        yield line[:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + line[m.end():]


def mutants(lines):
    out = []
    doc = False
    for i, line in enumerate(lines):
        s = line.strip()
        if is_py:
            if s.count('"""') == 1:
                doc = not doc
                continue
            if doc or not s or s[0] in '#"\'@' or s.startswith(('import', 'from', 'class', 'def')) or not line.startswith('    '):
                continue
        elif not line.startswith('    ') or s.startswith(('#', '*', '/*', '//', '"')) or not s:
            continue
        ms = []
        for a, b in (('<', '<='), ('<=', '<'), ('>', '>='), ('>=', '>'), ('==', '!='), ('!=', '=='), ('<', '>')):
            ms += swap(line, r'(?<= )' + re.escape(a) + r'(?= )', b)
        for a, b in (('+', '-'), ('-', '+'), ('&&', '||'), ('||', '&&'), ('and', 'or'), ('or', 'and'), ('*', '+'), ('//', '*'), ('>>', '<<'), ('+=', '='), ('+=', '-='), ('-=', '+='), ('-=', '=')):
            ms += swap(line, r'(?<= )' + re.escape(a) + r'(?= )', b)
        ms += swap(line, r'(?<=[\w)\]]) [+-] 1\b', '')
        ms += swap(line, r'(?<![\w.])(\d+|0x[0-9a-f]+)\b(?!\s*:)', lambda m: str(int(m[0], 0) + 1))
        ms += swap(line, r'(?<![\w.])([1-9]\d*|0x[0-9a-f]+)\b(?!\s*:)', lambda m: str(int(m[0], 0) - 1))
        ms += swap(line, r'\bnot ', '')
        ms += swap(line, r'\bTrue\b', 'False')
        ms += swap(line, r'\bFalse\b', 'True')
        ms += swap(line, r'return \(-DETOOLS_\w+\)', 'return (0)')
        ms += swap(line, r'\bMIN\b', 'MAX')
        ms += swap(line, r'\bmin\(', 'max(')
        ms += swap(line, r'\bmax\(', 'min(')
        ind = line[:len(line) - len(line.lstrip())]
        if is_py:
            if re.match(r'[\w.\[\]]+ [-+|]?= .*[^\[({,]$', s) or re.match(r'[\w.]+\(.*\)$', s) or s.startswith('raise ') or s in ('continue', 'break'):
                if not (i + 1 < len(lines) and len(lines[i + 1]) - len(lines[i + 1].lstrip()) > len(ind)):
                    ms.append(ind + 'pass\n')
        elif re.match(r'[\w>.\-\[\]]+(\+\+|--| [-+|&]?= .*);$', s) or re.match(r'(\(void\))?\w+\(.*\);$', s) or s in ('break;', 'continue;'):
            ms.append(ind + ';\n')
        for m in ms:
            if m != line:
                out.append((i, m))
    return out


local = threading.local()
ids = iter(range(1000))


def setup(w):
    d = f'{M}/w{w}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    for f in ('common.sh', 'test.sh', 'ext.mk', 'build.sh', 'results.py'):
        s = open('/opt/vp/' + f).read().replace('/repo', d + '/repo').replace('/opt/vp/', d + '/')
        open(f'{d}/{f}', 'w').write(s)
    shutil.copy('/opt/vp/BASELINE.json', d)
    return d


def work(job):
    n, i, new = job
    if not hasattr(local, 'd'):
        local.d = setup(next(ids))
    d = local.d
    p = f'{d}/repo/{FILE}'
    lines = open('/repo/' + FILE).readlines()
    old = lines[i]
    lines[i] = new
    open(p, 'w').writelines(lines)
    what = f'{FILE}:{i + 1}: {old.strip()}  ==>  {new.strip()}'
    try:
        if is_py:
            if subprocess.run(['/opt/detools/venv/bin/python3', '-c', 'import ast,sys; ast.parse(open(sys.argv[1]).read())', p], capture_output=True).returncode:
                return what, 'no build'
        elif subprocess.run(['bash', d + '/build.sh'], capture_output=True).returncode:
            return what, 'no build'
        r = f'{d}/r.json'
        if os.path.exists(r):
            os.remove(r)
        if not is_py:
            subprocess.run(['bash', d + '/test.sh', r], capture_output=True)
        if is_py:
            pass
        elif not os.path.exists(r) or BASE - set(json.load(open(r))['passed']):
            return what, 'tests'
        for c in CHECKS:
            env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/build', VERIF_OUT=d + '/out')
            try:
                q = subprocess.run(['python3', V + '/run.py', c], capture_output=True, text=True, timeout=900, env=env)
            except subprocess.TimeoutExpired:
                return what, c + ' TIMEOUT'
            if q.returncode == 1 and 'VIOLATION property=' + c in q.stdout:
                return what, c
            if q.returncode:
                return what, f'{c} ODD {q.returncode} {q.stdout[-300:]} {q.stderr[-300:]}'
        os.makedirs(M + '/alive', exist_ok=True)
        q = subprocess.run(['diff', '-u', '--label', 'a/' + FILE, '--label', 'b/' + FILE, '/repo/' + FILE, p], capture_output=True, text=True).stdout
        open(f'{M}/alive/{os.path.basename(FILE)}-{SEED}-{n}.diff', 'w').write(q)
        return what, 'ALIVE'
    except Exception as e:
        return what, 'ERROR ' + repr(e)
    finally:
        lines[i] = old
        open(p, 'w').writelines(lines)


all_m = mutants(open('/repo/' + FILE).readlines())
rnd = random.Random(SEED)
rnd.shuffle(all_m)
os.makedirs(M, exist_ok=True)
log = open(f'{M}/{os.path.basename(FILE)}.log', 'a')
with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
    fs = [ex.submit(work, (n, i, m)) for n, (i, m) in enumerate(all_m[:COUNT])]
    for f in concurrent.futures.as_completed(fs):
        what, res = f.result()
        print(res, '|', what, file=log, flush=True)
print('done', len(all_m), file=log, flush=True)
