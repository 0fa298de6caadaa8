"""Planted changes (development only; no check uses this).
  seed.py new ID FILE          old/new text read from stdin, separated by a line '====' (several pairs separated by '####')
  seed.py verify ID...         scratch copy: demo passes without / fails with the change, stable tests pass with it
  seed.py check ID... [-p C03] run the checks (all, or those given) against a scratch copy carrying the change"""
import json, os, shutil, subprocess as sp, sys, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
W = '/tmp/seedwork'
ENV = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', HOME='/root')


def copy(i, patched):
    d = f'{W}/{os.getpid()}-{i}{"" if patched else ".base"}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('__pycache__', '.pytest_cache'))
    if patched:
        sp.run(['git', 'apply', f'{S}/{i}/patch.diff'], cwd=d, check=True)
    return d


def demo(d, i):
    tmp = f'{W}/demo_{i}'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(f'{S}/{i}', tmp, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = sp.run(['bash', f'{tmp}/demo.sh'], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True, timeout=300)
    shutil.rmtree(tmp)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def verify(i):
    b = copy(i, False)
    r0, o0 = demo(b, i)
    shutil.rmtree(b)
    d = copy(i, True)
    r1, o1 = demo(d, i)
    t = sp.run(['/opt/venv/bin/python', '-m', 'pytest', 'test', '-q', '-p', 'no:cacheprovider', '--randomly-seed=0', '--randomly-dont-reorganize', '--timeout=600'],
               cwd=d, env=dict(ENV, PYTHONHASHSEED='0', PYTHONPATH=d), capture_output=True, text=True)
    shutil.rmtree(d)
    ok = r0 == 0 and r1 != 0 and t.returncode == 0
    return f'{i}: {"OK" if ok else "BAD"} demo base={r0} patched={r1} tests={t.stdout.strip().splitlines()[-1][:80]}' + ('' if ok else f'\n   base: {o0}\n   patched: {o1}')


def check(i, props=None):
    d = copy(i, True)
    m = json.load(open(f'{S}/{i}/meta.json'))['property']
    res = []
    props = props or [c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
    for p in props:
        r = sp.run(['python3', '-m', 'folxsa.run', p], cwd=V, env=dict(ENV, FOLXSA_REPO=d, FOLXSA_EVIDENCE='/tmp/seedwork/evidence'), capture_output=True, text=True)
        if r.returncode:
            res.append(f'{p}:{r.returncode}')
    shutil.rmtree(d)
    hit = f'{m}:1' in res
    return f'{i} ({m}): {"CAUGHT" if hit else "missed"} {" ".join(res)}'


if __name__ == '__main__':
    a = sys.argv[1:]
    os.makedirs(W, exist_ok=True)
    if a[0] == 'new':
        i, f = a[1:3]
        os.makedirs(f'{S}/{i}', exist_ok=True)
        d = f'{W}/{i}.new'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d)
        for pair in sys.stdin.read().split('\n####\n'):
            g = f
            if pair.startswith('@'):
                g, pair = pair[1:].split('\n', 1)
            old, new = pair.split('\n====\n')
            new = new.rstrip('\n'); old = old.rstrip('\n')
            s = open(f'{d}/{g}').read()
            assert s.count(old) == 1, (s.count(old), old)
            open(f'{d}/{g}', 'w').write(s.replace(old, new))
        open(f'{S}/{i}/patch.diff', 'w').write(sp.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout)
        shutil.rmtree(d)
        if not os.path.exists(f'{S}/{i}/demo.sh'):
            open(f'{S}/{i}/demo.sh', 'w').write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    else:
        ids = [x for x in a[1:] if not x.startswith('-')]
        props = None
        if '-p' in a:
            props = a[a.index('-p') + 1].split(',')
            ids = [x for x in ids if x != a[a.index('-p') + 1]]
        if not ids:
            ids = sorted(os.path.basename(x) for x in glob.glob(S + '/*'))
        with ThreadPoolExecutor(4 if a[0] == 'verify' else 2) as ex:
            for r in ex.map(verify if a[0] == 'verify' else lambda i: check(i, props), ids):
                print(r, flush=True)
