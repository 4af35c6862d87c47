"""Development tool: make and confirm planted bugs.   seed.py make SPEC.py | run [ids...]

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, what, demo)].
`make` writes seeded/<id>/ after confirming, in a scratch copy of /repo, that the tests pass with the patch
and the demonstration passes without and fails with it.  `run` applies each to a scratch copy and runs the check."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    return d


def env(d):
    e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LANG='C.UTF-8', LC_ALL='C.UTF-8')
    return e


def sh(cmd, d, **kw):
    return subprocess.run(cmd, cwd=d, env=env(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(spec, only=()):
    for b in runpy.run_path(spec)['BUGS']:
        if only and b['id'] not in only:
            continue
        out = os.path.join(SEEDED, b['id'])
        if os.path.exists(os.path.join(out, 'meta.json')) and not only:
            continue
        d = copy()
        try:
            tmp = tempfile.mkdtemp(prefix='demo')
            with open(os.path.join(tmp, 'demo.py'), 'w') as f:
                f.write(b['demo'])
            with open(os.path.join(tmp, 'demo.sh'), 'w') as f:
                f.write(DEMO)
            r = sh(['bash', os.path.join(tmp, 'demo.sh')], d)
            if r.returncode:
                print(b['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-800:])
                continue
            ok = True
            for fn, old, new in b['edits']:
                p = os.path.join(d, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'EDIT MATCHES', s.count(old), 'TIMES', fn, repr(old[:60]))
                    ok = False
                    break
                open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            diff = sh(['git', 'diff'], d).stdout
            r = sh(['bash', os.path.join(tmp, 'demo.sh')], d)
            if r.returncode == 0:
                print(b['id'], 'DEMO PASSES WITH THE BUG')
                continue
            what = r.stdout[-300:]
            t = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--no-cov', '--timeout=300'], d)
            if t.returncode:
                print(b['id'], 'TESTS FAIL', '\n'.join(t.stdout.splitlines()[-12:]))
                continue
            os.makedirs(out, exist_ok=True)
            with open(os.path.join(out, 'patch.diff'), 'w') as f:
                f.write(diff)
            shutil.copy(os.path.join(tmp, 'demo.py'), out)
            shutil.copy(os.path.join(tmp, 'demo.sh'), out)
            with open(os.path.join(out, 'meta.json'), 'w') as f:
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, f, indent=1)
                f.write('\n')
            print(b['id'], 'ok', what.strip().splitlines()[-1:] )
            shutil.rmtree(tmp)
        finally:
            shutil.rmtree(d)


def run(ids, tier='quick'):
    import time
    ids = ids or sorted(os.listdir(SEEDED))
    for i in ids:
        p = os.path.join(SEEDED, i)
        if not os.path.exists(p + '/meta.json'):
            continue
        prop = json.load(open(p + '/meta.json'))['property']
        d = copy()
        ev = tempfile.mkdtemp(prefix='ev')
        try:
            r = sh(['git', 'apply', p + '/patch.diff'], d)
            if r.returncode:
                print(i, 'PATCH DOES NOT APPLY', r.stdout)
                continue
            e = dict(os.environ, REPO_UNDER_TEST=d, VERIF_EVIDENCE_DIR=ev, VERIF_SEED='1')
            t = time.time()
            r = subprocess.run([ROOT + '/check', prop], cwd=ROOT, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            print('%-28s %s rc=%d %5.1fs %s' % (i, prop, r.returncode, time.time() - t,
                                                 ('no-failing-input-found' if last and last[0].endswith('found') else 'CAUGHT' if last else 'missed')), flush=True)
        finally:
            shutil.rmtree(d)
            shutil.rmtree(ev)


if sys.argv[1] == 'make':
    make(sys.argv[2], sys.argv[3:])
else:
    run(sys.argv[2:])
