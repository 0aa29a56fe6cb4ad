#!/usr/bin/env python3
"""Development aid: turn a bug specification into /verif/seeded/<id>/ and see
which check catches it.  No check uses this file or the folder it writes.

  plant.py SPEC.py [...]        plant (tests, demo both ways, patch, check)
  plant.py --check ID [...]     run the property's quick check against ID again

A specification defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...]
and DEMO (text of demo.py).  Everything happens in a scratch copy.
"""
import json, os, shutil, subprocess, sys, tempfile

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# cwd: the repository. Exit 0: the property holds here; nonzero: it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def copy_repo():
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    dst = os.path.join(d, 'repo')
    shutil.copytree('/repo', dst)
    return d, dst


def check(bug, prop, dst):
    env = {'BITFORGE_REPO': dst, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick',
           'VERIF_EVIDENCE': dst + '/../evidence'}
    r = run([PY, HERE + '/check.py', prop, 'quick'], HERE, env)
    lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'violat' in l.lower()]
    print('   check %s exit %d  %s' % (prop, r.returncode, '; '.join(lines[:3])[:300]), flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-2000:])
    return r.returncode


def plant(path):
    spec = {}
    exec(open(path).read(), spec)
    bug = os.path.splitext(os.path.basename(path))[0]
    d, dst = copy_repo()
    try:
        for f, old, new in spec['EDITS']:
            p = os.path.join(dst, f)
            s = open(p).read()
            assert s.count(old) == 1, (bug, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], dst).stdout
        r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], dst)
        tail = r.stdout.strip().splitlines()[-1]
        if '110 passed' not in tail and r.returncode != 0:
            print(bug, 'TESTS FAIL', tail)
            print(r.stdout[-1500:])
            return
        out = os.path.join(HERE, 'seeded', bug)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(spec['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
        a = run(['bash', out + '/demo.sh'], '/repo')
        b = run(['bash', out + '/demo.sh'], dst)
        ok = a.returncode == 0 and b.returncode != 0
        print(bug, 'tests:', tail, '| demo clean', a.returncode, 'patched', b.returncode, '' if ok else '  <<<<<< BAD', flush=True)
        if not ok:
            print(a.stdout[-800:], '\n--\n', b.stdout[-800:])
        else:
            print('   demo says:', b.stdout.strip().splitlines()[-1][:200])
        check(bug, spec['PROP'], dst)
    finally:
        shutil.rmtree(d)


def recheck(bug, props=None):
    d, dst = copy_repo()
    try:
        meta = json.load(open(os.path.join(HERE, 'seeded', bug, 'meta.json')))
        r = run(['git', 'apply', os.path.join(HERE, 'seeded', bug, 'patch.diff')], dst)
        assert r.returncode == 0, r.stdout
        print(bug, flush=True)
        for prop in props or [meta['property']]:
            check(bug, prop, dst)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    args = sys.argv[1:]
    if args[0] == '--check':
        for b in args[1:]:
            recheck(b)
    elif args[0] == '--matrix':
        for b in args[1:]:
            recheck(b, ['C%02d' % i for i in range(1, 15)])
    else:
        for p in args:
            plant(p)
