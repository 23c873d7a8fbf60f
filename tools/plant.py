#!/usr/bin/env python3
"""plant.py [ids...]: builds /verif/seeded/<id> from tools/seeds/*.py definitions, after confirming in a scratch copy that the
stable tests still pass, the demonstration fails with the change and passes without it; then runs the property's check
against the scratch copy and prints whether it is caught."""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', TZ='UTC', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def tests(d):
    out = os.path.join(d, '.out.json')
    rep = os.path.join(d, '.junit.xml')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '--ignore=test/comcat',
                    '-o', 'junit_family=xunit2', '--junitxml=' + rep, '-W', 'ignore', 'test'], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True)
    subprocess.run(['python3', '/opt/vp/results.py', out, 'junit:' + rep], capture_output=True)
    ps = set(json.load(open(out))['passed'])
    return sorted(STABLE - ps)


def one(s):
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        t = os.path.join(d, 'repo')
        shutil.copytree(os.environ.get('PLANT_SRC','/repo'), t, symlinks=True)
        sd = os.path.join(d, 'seed')
        os.makedirs(sd)
        open(os.path.join(sd, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(sd, 'demo.sh'), 'w').write(DEMO)

        def demo():
            return subprocess.run(['bash', os.path.join(sd, 'demo.sh')], cwd=t, env=ENV, capture_output=True, text=True)
        r = demo()
        if r.returncode:
            return f'demo fails on the unchanged tree: {r.stderr[-800:]}'
        for f, old, new in s['edits']:
            p = os.path.join(t, f)
            x = open(p).read()
            if x.count(old) != 1:
                return f'{f}: {x.count(old)} matches for {old!r}'
            open(p, 'w').write(x.replace(old, new))
        r = demo()
        if r.returncode == 0:
            return 'demo passes with the change'
        tail = (r.stderr.strip().splitlines() or [''])[-1]
        if 'Assertion' not in tail:
            print('   demo ends with:', tail)
        import re
        diff0 = subprocess.run(['git', 'diff', '-U0', '--', 'impactutils'], cwd=t, capture_output=True, text=True).stdout
        f = None
        for l in diff0.splitlines():
            if l.startswith('--- '):
                f = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if not m:
                continue
            k = int(m.group(2) or 1)
            if not k:
                print('   an insertion only:', f, l)
                continue
            b = subprocess.run(['git', 'blame', '-s', '-L', f'{m.group(1)},+{k}', 'HEAD', '--', f], cwd=os.environ.get('PLANT_SRC', '/repo'), capture_output=True, text=True).stdout
            for x in b.splitlines():
                if not x.startswith('^'):
                    print('   a later line changed:', x)
        fails = tests(t)
        if fails:
            return f'stable tests fail: {fails[:4]}'
        diff = subprocess.run(['git', 'diff', '--', 'impactutils'], cwd=t, capture_output=True, text=True).stdout
        o = os.path.join(HERE, 'seeded', s['id'])
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(sd, o)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        r = subprocess.run(['python3', os.path.join(HERE, 'check.py'), s['property']], cwd=HERE, env=dict(os.environ, PYVC_REPO=t), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return f"planted; check exit {r.returncode} {'CAUGHT ' + v[0] if v else 'MISSED'}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ids = sys.argv[1:]
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        g = {}
        exec(compile(open(f).read(), f, 'exec'), g)
        seeds += g['SEEDS']
    for s in seeds:
        if ids and s['id'] not in ids and s['property'] not in ids:
            continue
        print(s['id'], one(s), flush=True)


main()
