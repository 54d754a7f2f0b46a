"""Runs the check of each planted bug's property on a scratch copy with the bug (a development tool).
usage: runseeds.py [id ...]      (all: every check instead of the property's own with --all)"""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
for i in ids:
    d = os.path.join(VERIF, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='seedrun')
    try:
        shutil.copytree('/repo/properties', tmp + '/properties', ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.check_call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=tmp)
        checks = ['C%02d' % k for k in range(1, 27)] if '--all' in sys.argv else [prop]
        for c in checks:
            t0 = time.time()
            p = subprocess.run(['./check', c], cwd=VERIF, env=dict(os.environ, PYVC_REPO=tmp, PYVC_OUT=tmp + '/out'),
                               capture_output=True, text=True)
            info = [l.strip() for l in p.stdout.splitlines() if l.startswith('  ')][:1]
            print(i, c, {0: 'MISSED', 1: 'caught'}.get(p.returncode, p.returncode),
                  'weak' if 'no-failing-input' in p.stdout else '', '%.0fs' % (time.time() - t0), ' '.join(info)[:140], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
