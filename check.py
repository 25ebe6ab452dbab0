#!/usr/bin/env python3
"""Usage: check.py PROPERTY [--tier quick|thorough] [--runs N] [--workers N] [--seed N] | PROPERTY --replay FILE"""
import argparse
import os
import sys

PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') in (None, 'random') or (os.path.exists(PY) and os.path.realpath(sys.prefix) != '/opt/venv'):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
    env.setdefault('PYTHONHASHSEED', '0')
    if env['PYTHONHASHSEED'] == 'random':
        env['PYTHONHASHSEED'] = '0'
    py = PY if os.path.exists(PY) else sys.executable
    if os.environ.get('VERIF_REEXEC') != '1':
        env['VERIF_REEXEC'] = '1'
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--verify', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    os.chdir(HERE)
    import dfir_ntfs
    if os.path.dirname(os.path.dirname(os.path.abspath(dfir_ntfs.__file__))) != os.path.abspath(REPO):
        print('HARNESS-ERROR: wrong dfir_ntfs imported: %s' % dfir_ntfs.__file__)
        return 2
    from sim import runner
    if a.replay:
        v, digest, same = runner.replay(a.prop, a.replay, verbose=not a.verify)
        if a.verify:
            if not same:
                print('replay differs: %r' % (v,))
            return 0 if same else 3
        if v is not None:
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
            return 1
        print('the recorded violation no longer occurs')
        return 0
    return runner.main_check(a.prop, a.tier, a.seed, a.runs, a.workers, no_evidence=a.no_evidence)


if __name__ == '__main__':
    sys.exit(main())
