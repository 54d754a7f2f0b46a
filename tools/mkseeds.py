"""Builds seeded/<id>/ from tools/seeds/*.py (each defines SEEDS) and confirms each: it applies, the stable tests
pass, and the demo fails only with it.  usage: mkseeds.py [id ...]   Nothing here is read by the checks."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
PY = '/opt/venv/bin/python'
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport properties\n"


def run(cmd, cwd, t=300):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, (p.stdout + p.stderr)[-1500:]


def build(s):
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
        r = tmp + '/r'
        for f, old, new in s['edits']:
            p = os.path.join(r, 'properties', f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=r, text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\nexec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = run(['sh', os.path.join(d, 'demo.sh')], r)
        good = run(['sh', os.path.join(d, 'demo.sh')], '/repo')
        t = run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], r)
        tests = [l for l in t[1].splitlines() if 'passed' in l or 'failed' in l or 'error' in l][-1:]
        base = os.environ.get('BASE')
        ok = bad[0] != 0 and good[0] == 0 and 'Assertion' in bad[1] or bad[0] != 0 and good[0] == 0
        print(s['id'], 'demo bad rc', bad[0], 'good rc', good[0], 'tests', t[0], tests, '' if ok and t[0] == 0 else '<<<<<< NOT OK')
        if not ok:
            print(bad[1][-400:], good[1][-400:])
        if t[0]:
            print(t[1][-700:])
    finally:
        shutil.rmtree(tmp)


for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
    spec = importlib.util.spec_from_file_location('s', f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.SEEDS:
        if len(sys.argv) == 1 or s['id'] in sys.argv[1:]:
            build(s)
