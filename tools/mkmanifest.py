"""Writes MANIFEST.json: one check per contracts/cXX.py.  Run in /verif."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property: (level, note)
DEFAULT_NOTE = ('contracts on the real functions, obligations regenerated from /repo and discharged by z3/cvc5 on '
                'every run; contracts outside the verifier\'s reach run as bounded concrete checks and are listed '
                'as bounded in the evidence')
LEVELS = {
    'C16': ('exploration', 'build_from_bases is proved for any number of names under a bound on the ancestors (two); '
            'PropertyMetaclass.__new__ itself is decided by exhaustive enumeration of small hierarchies and random larger '
            'ones against the MRO of plain twin classes: bounded, so the whole is not declared a proof'),
}
BOUNDED_NOTE = ('bounded: the contracts of these functions are executed on the real code with generated inputs; '
                'nothing is counted as proved')


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        f = os.path.join(HERE, 'contracts', pid.lower() + '.py')
        if not os.path.exists(f):
            na.append(dict(property=pid, reason='no contracts written yet'))
            continue
        src = open(f).read()
        sym = re.search(r'^@contract', src, re.M)
        level = LEVELS.get(pid, ('proof' if sym else 'exploration',))[0]
        note = LEVELS[pid][1] if pid in LEVELS else (DEFAULT_NOTE if sym else BOUNDED_NOTE)
        checks.append(dict(property=pid, quick_cmd='./check %s --tier quick' % pid,
                           thorough_cmd='./check %s --tier thorough' % pid,
                           technique='contract-based deductive verification (pyvc symbolic execution of the real '
                                     'source + z3/cvc5), with bounded contract execution where out of reach'
                           if sym else 'executable contracts on the real code (bounded)',
                           level=level, level_note=note))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/'
             'lib/python3.12/site-packages\'); import z3, pyvc.core, properties"',
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'n/a')


main()
