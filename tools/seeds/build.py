"""Writes /verif/seeded/<id>/ from the specs in s_*.py here and confirms each in a scratch copy of /repo:
applies, builds (imports), passes the stable tests, demo exits 0 without and nonzero with the change.
usage: build.py [id ...]   (needs nothing from mc/)"""
import sys, os, json, subprocess, shutil, glob, runpy, tempfile, difflib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
PY = '/opt/venv/bin/python'
BASE = '11fbcf2'
specs = {}
for f in sorted(glob.glob(HERE + '/s_*.py')):
    for s in runpy.run_path(f)['SPECS']:
        assert s['id'] not in specs, s['id']
        specs[s['id']] = s
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']

def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

def mine(path):
    """lines of the current file that the fix commits added"""
    out = sh(f'git -C /repo blame -s --abbrev=39 {BASE}..HEAD -- {path}').stdout
    res = set()
    for n, l in enumerate(out.splitlines()):
        if not l.startswith('^'):
            res.add(n)
    return res

def build(s):
    d = os.path.join(SEEDED, s['id'])
    os.makedirs(d, exist_ok=True)
    W = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        sh(f'cp -a /repo {W}/r')
        R = W + '/r'
        own = {}
        for path, old, new in s['edits']:
            p = f'{R}/{path}'
            t = open(p).read()
            if t.count(old) != 1:
                return f"{s['id']}: old text occurs {t.count(old)} times in {path}"
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=R).stdout
        # lines touched must be original
        orig_touched = 0
        for path in {e[0] for e in s['edits']}:
            m = mine(path)
            a = open('/repo/' + path).read().splitlines(); b = open(f'{R}/{path}').read().splitlines()
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
                if tag in ('replace', 'delete'):
                    for i in range(i1, i2):
                        if i in m:
                            return f"{s['id']}: touches own line {path}:{i+1}: {a[i]}"
                        orig_touched += 1
        if not orig_touched:
            return f"{s['id']}: changes no original line"
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec ' + PY + ' -B "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='2',
                   TORCHINDUCTOR_CACHE_DIR=W + '/ind', TRITON_CACHE_DIR=W + '/tri')
        a = sh(f'bash {d}/demo.sh', cwd='/repo', env=dict(env, PYTHONPATH='/repo/src'))
        if a.returncode != 0:
            return f"{s['id']}: demo fails on the unchanged tree\n" + a.stdout[-1500:]
        b = sh(f'bash {d}/demo.sh', cwd=R, env=dict(env, PYTHONPATH=R + '/src'))
        if b.returncode == 0:
            return f"{s['id']}: demo passes with the change"
        t = sh(f'{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors '
               f'--ignore=tests/test_menagerie.py --ignore=tests/mujoco_menagerie -o junit_family=xunit2 '
               f'--junitxml={W}/j.xml tests', cwd=R, env=dict(env, PYTHONPATH=R + '/src', OMP_NUM_THREADS='4'), timeout=1200)
        sh(f'python3 /opt/vp/results.py {W}/o.json junit:{W}/j.xml')
        ok = set(json.load(open(W + '/o.json'))['passed'])
        miss = [x for x in stable if x not in ok]
        if miss:
            return f"{s['id']}: breaks stable tests {miss[:4]}"
        return f"{s['id']}: OK  ({b.stdout.strip().splitlines()[-1][:110] if b.stdout.strip() else ''})"
    except Exception as e:
        return f"{s['id']}: {e!r}"
    finally:
        shutil.rmtree(W, ignore_errors=True)

ids = sys.argv[1:] or list(specs)
with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for r in ex.map(lambda i: build(specs[i]), ids):
        print(r, flush=True)
        i = r.split(':')[0]
        if ': OK' not in r:
            shutil.rmtree(os.path.join(SEEDED, i), ignore_errors=True)
