#!/usr/bin/env python3
"""Builds and confirms planted bugs. usage: plant/tool.py make ID... | confirm ID... | catch ID... [--runs N]
make: writes seeded/<ID>/ from plant/bugs.py; confirm: stable tests and demo in a scratch copy; catch: runs the check of its property
against a scratch copy with the patch (VERIF_REPO). Not used by any check."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks, files=()):
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def load():
    for n in sorted(os.listdir(HERE)):
        if n.startswith('bugs') and n.endswith('.py'):
            exec(compile(open(os.path.join(HERE, n)).read(), n, 'exec'), globals())


DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d


def make(id):
    b = BUGS[id]
    out = os.path.join(VERIF, 'seeded', id)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    d = copy()
    for path, old, new, *k in b['edits']:
        p = d + '/repo/' + path
        s = open(p).read()
        if k:       # which occurrence
            parts = s.split(old)
            s = old.join(parts[:k[0] + 1]) + new + old.join(parts[k[0] + 1:])
        else:
            assert s.count(old) == 1, (id, path, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh('git diff', cwd=d + '/repo').stdout
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.sh', 'w').write(DEMO)
    open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    for f in b['files']:
        shutil.copy(os.path.join(VERIF, f), out)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)


def confirm(id, tests=True):
    d = copy()
    r = d + '/repo'
    seed = os.path.join(VERIF, 'seeded', id)
    e = d + '/demo'
    shutil.copytree(seed, e)
    a = sh('bash %s/demo.sh' % e, cwd=r)
    ap = sh('git apply %s/patch.diff' % seed, cwd=r)
    c = sh('bash %s/demo.sh' % e, cwd=r)
    bad = '?'
    if tests:
        sh('PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --tb=no --timeout=300 -o junit_family=xunit2 --junitxml=%s/j.xml test_cases.py' % (r, d), cwd=r)
        sh('python3 /opt/vp/results.py %s/o.json junit:%s/j.xml' % (d, d))
        o = json.load(open(d + '/o.json'))
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = sorted(set(st) - set(o['passed']))
    print(id, 'apply', ap.returncode, 'demo clean', a.returncode, 'demo patched', c.returncode, 'stable failing', bad)
    if a.returncode or not c.returncode:
        print(a.stderr[-800:], c.stderr[-800:], c.stdout[-400:])
    else:
        print('   ', (c.stderr.strip().splitlines() or ['-'])[-1][:200])
    shutil.rmtree(d)


def catch(id, extra=()):
    d = copy()
    r = d + '/repo'
    seed = os.path.join(VERIF, 'seeded', id)
    sh('git apply %s/patch.diff' % seed, cwd=r)
    prop = json.load(open(seed + '/meta.json'))['property']
    env = dict(os.environ, VERIF_REPO=r, VERIF_SEED='1')
    p = subprocess.run(['python3', os.path.join(VERIF, 'check.py'), prop, '--no-evidence'] + list(extra), capture_output=True, text=True, env=env)
    print(id, prop, 'exit', p.returncode, [l for l in p.stdout.splitlines() if 'iolation' in l.lower() or 'HARNESS' in l or ' wall=' in l])
    shutil.rmtree(d)


if __name__ == '__main__':
    load()
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:]]
    ids = ids or sorted(os.listdir(os.path.join(VERIF, 'seeded')) if cmd != 'make' else BUGS)
    for i in ids:
        {'make': make, 'confirm': confirm, 'catch': catch, 'demo': lambda i: confirm(i, False)}[cmd](i)
