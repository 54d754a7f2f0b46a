"""The check of one property: prove its contracts, run them, write the evidence.

usage: python -m pyvc.check C04 [--tier quick|thorough]
exit 0: held; 1: VIOLATION printed; 2: the check could not run."""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
OUT = os.environ.get('PYVC_OUT', os.path.join(VERIF, 'evidence'))
sys.dont_write_bytecode = True
for p in (VERIF, REPO):
    if p not in sys.path:
        sys.path.insert(0, p)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

BUDGET = {'quick': dict(prove=150.0, native=30.0, mult=1, timeout=2500),
          'thorough': dict(prove=1500.0, native=180.0, mult=25, timeout=10000)}
CMD = '/opt/venv/bin/python -W ignore -m pyvc.check %s --tier %s'

TRUSTED = [
    'pyvc: the symbolic semantics of the Python subset used by /repo/properties (interp.py, loops.py, models.py)',
    'z3 5.3.2 (and cvc5 1.1.2 on unknowns)',
    'CPython 3.12: class construction (metaclasses), descriptors and MRO are taken from the imported classes',
]
ASSUME = [
    'floats are mathematical reals plus inf and nan (no rounding); the bounded runs use real floats',
    'int(str), float(str), str.strip/upper/lower/format and regex matching are uninterpreted (functional) operations',
    'operations of foreign objects (==, int(), iteration) are arbitrary but raise only TypeError/ValueError',
    'callbacks (validators, listeners, user functions) are arbitrary deterministic functions of their arguments '
    'unless a contract says otherwise',
]


def load(prop):
    from pyvc import api
    importlib.import_module('contracts.' + prop.lower())
    return api.REGISTRY.get(prop, [])


def job(args):
    kind, prop, idx, seed, tier = args
    b = BUDGET[tier]
    try:
        cs = load(prop)
        c = cs[idx]
        known = json.load(open(os.path.join(VERIF, 'known_findings.json'))).get('findings', [])
        known = [k for k in known if k.get('property') == prop]
        if kind == 'prove':
            from pyvc.verifier import prove
            from pyvc import runner
            st = prove(c, budget_s=b['prove'], timeout_ms=b['timeout'])
            res = dict(kind=kind, idx=idx, name=c.name, obligations=st.obligations, paths=st.paths,
                       queries=st.queries, solver_s=st.solver_s, wall=st.wall, completed=st.completed,
                       functions=sorted(st.functions), models=sorted(st.models_used),
                       libs=sorted(st.libs), stands=sorted(st.stands), backend=st.backend,
                       unsupported=sorted(set(st.unsupported))[:20], ends=st.ends, covers=sorted(st.covers),
                       refuted=[], witness=None)
            done = set()
            for r in st.refuted:
                if (r['label'], r['exact']) in done:
                    continue
                done.add((r['label'], r['exact']))
                if len(res['refuted']) < 12:
                    res['refuted'].append(r)
                if res['witness'] is None and c.native and len(done) <= 8:
                    res['witness'] = runner.replay_model(c, r['inputs'])
            return res
        from pyvc import runner
        r = runner.run(c, seed, c.trials * b['mult'], b['native'], known)
        r.update(kind=kind, idx=idx, name=c.name)
        return r
    except Exception:
        return dict(kind=kind, idx=idx, name='?', error=traceback.format_exc())


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    o = ap.parse_args(argv)
    prop, tier = o.property, o.tier if o.tier in BUDGET else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        cs = load(prop)
    except Exception:
        traceback.print_exc()
        print('ERROR: the code or the contracts of %s could not be imported' % prop)
        return 2
    if not cs:
        print('ERROR: no contracts for %s' % prop)
        return 2
    jobs = [('prove', prop, i, seed, tier) for i, c in enumerate(cs) if c.symbolic and (tier == 'thorough' or not c.heavy)]
    jobs.sort(key=lambda j: not cs[j[2]].slow)
    jobs += [('native', prop, i, seed, tier) for i, c in enumerate(cs) if c.native]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(o.jobs, maxtasksperchild=1) as pool:
        limit = 840 if tier == 'quick' else 6000
        rs = []
        ar = [pool.apply_async(job, (j,)) for j in jobs]
        for j, a in zip(jobs, ar):
            try:
                rs.append(a.get(max(1.0, limit - (time.time() - t0))))
            except multiprocessing.TimeoutError:
                rs.append(dict(kind=j[0], idx=j[2], name=cs[j[2]].name, error='time limit'))
        pool.terminate()
    return report(prop, tier, seed, cs, rs, t0)


def report(prop, tier, seed, cs, rs, t0):
    proofs = [r for r in rs if r['kind'] == 'prove' and 'error' not in r]
    runs = [r for r in rs if r['kind'] == 'native' and 'error' not in r]
    errors = [r for r in rs if 'error' in r]
    rdir = os.path.join(OUT, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, fn))
    violations, undecided = [], []

    def write(name, data):
        path = os.path.join(rdir, '%s-%s.json' % (prop, name))
        with open(path, 'w') as f:
            json.dump(dict(data, property=prop,
                           replay_cmd='cd /verif && /opt/venv/bin/python -W ignore -m pyvc.replay ' + path),
                      f, indent=1, default=str)
        return path
    failed = {}
    for r in runs:
        for f in r['failures']:
            failed[r['name']] = write(r['name'], f)
            violations.append((r['name'], f['label'], f['detail'], failed[r['name']], ''))
    for r in proofs:
        if r['witness'] is not None and r['name'] not in failed:
            failed[r['name']] = write(r['name'], dict(r['witness'], solver=r['refuted'][:3]))
            violations.append((r['name'], r['witness']['label'], r['witness']['detail'], failed[r['name']], ''))
        for x in r['refuted']:
            if r['name'] in failed:
                continue
            if x['exact']:
                path = write(r['name'] + '-proof', dict(x, contract=r['name'], kind='obligation'))
                failed[r['name']] = path
                violations.append((r['name'], x['label'], 'obligation refuted by the solver', path,
                                   ' no-failing-input-found'))
            else:
                undecided.append('%s: %s (%s)' % (r['name'], x['label'], ','.join(map(str, x['taint']))))
        for u in r['unsupported']:
            undecided.append('%s: %s' % (r['name'], u))
        if not r['completed']:
            undecided.append('%s: exploration incomplete' % r['name'])
        for l, ob in r['obligations'].items():
            if ob['unknown']:
                undecided.append('%s: %s unknown' % (r['name'], l))
    for e in errors:
        undecided.append('%s %s: %s' % (e['kind'], e['name'], e['error'].strip().splitlines()[-1]))
    nob = sum(sum(ob.values()) for r in proofs for ob in r['obligations'].values())
    ndis = sum(ob['discharged'] for r in proofs for ob in r['obligations'].values())
    evals = sum(r['evaluations'] for r in runs)
    proved = [r['name'] for r in proofs if r['completed'] and not r['unsupported'] and not r['refuted'] and
              not any(ob['unknown'] for ob in r['obligations'].values()) and
              sum(ob['discharged'] for ob in r['obligations'].values())]
    sym = [c.name for c in cs if c.symbolic and (tier == 'thorough' or not c.heavy)]
    funcs = sorted({f for r in proofs for f in r['functions'] if f.startswith('properties/')})
    tabs = {}
    for c in cs:
        for t in c.targets:
            tabs.setdefault(t, []).append(c.name)
    backend = {}
    for r in proofs:
        for k, v in r['backend'].items():
            backend[k] = backend.get(k, 0) + v
    level = level_of(prop, cs)
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd=CMD % (prop, tier),
        trusted_base=TRUSTED,
        functions_under_contract=sorted(tabs),
        functions_interpreted=funcs,
        contracts_proved=sorted(proved),
        contracts_undecided=sorted(set(sym) - set(proved)),
        contracts_with_a_stated_bound={c.name: c.bound for c in cs if c.bound},
        contracts_proved_in_the_thorough_tier_only=sorted(c.name for c in cs if c.heavy),
        contracts_bounded_only=sorted(c.name for c in cs if not c.symbolic),
        obligations_by_contract={r['name']: {l: ob for l, ob in r['obligations'].items()} for r in proofs},
        paths=sum(r['paths'] for r in proofs), solver_queries=sum(r['queries'] for r in proofs),
        solver_s=round(sum(r['solver_s'] for r in proofs), 3), back_ends=backend,
        callee_contracts_used=sorted({m for r in proofs for m in r['models']}),
        library_functions_modelled=sorted({m for r in proofs for m in r['libs']}),
        undecided=undecided[:60],
        evaluations=evals, distinct_nontrivial=sum(r['distinct'] for r in runs),
        rule='every contract is also run under CPython on the real code with random inputs drawn by its own '
             'any_*/choose intrinsics (seed VERIF_SEED); a run counts when its precondition holds and it '
             'reached at least one checked condition with inputs not seen before',
        bounded_runs={r['name']: dict(evaluations=r['evaluations'], discarded=r['discarded'],
                                      checks=sum(r['labels'].values()), wall_s=round(r['wall'], 2))
                      for r in runs},
        samples=[s for r in runs for s in r['samples'][:1]][:12],
        seconds_by_contract={r['name']: round(r['wall'], 2) for r in proofs},
    )
    kn = sorted({k for r in runs for k in r['known']})
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + assumed(cs, proofs),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d contracts, %d proved of %d symbolic, obligations %d/%d discharged, %d concrete runs, %.1f s'
          % (prop, len(cs), len(proved), len(sym), ndis, nob, evals, time.time() - t0))
    for u in undecided[:25]:
        print('  undecided: ' + u)
    for e in errors:
        print(e['error'])
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations:
        for name, label, detail, path, tail in violations:
            print('  %s: %s %s' % (name, label, str(detail)[:300]))
        # a concrete witness first
        violations.sort(key=lambda v: v[4] != '')
        name, label, detail, path, tail = violations[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
        return 1
    if nob == 0 and sym or (evals == 0 and any(c.native for c in cs)):
        if not evals:
            print('ERROR: nothing was checked')
            return 2
    if any(e['kind'] == 'native' for e in errors):
        print('ERROR: a bounded run failed')
        return 2
    return 0


def assumed(cs, proofs):
    """What this run leaves unchecked beyond the general assumptions."""
    out = []
    libs = sorted({m for r in proofs for m in r['libs']})
    if libs:
        out.append('library functions replaced by the models of pyvc (assumed to describe them): ' + ', '.join(libs))
    stands = sorted({m for r in proofs for m in r['stands']})
    if stands:
        out.append('dependencies replaced by stand-ins written in the contract (assumed contracts of the dependency, '
                   'exercised for real only by the bounded contracts): ' + ', '.join(stands))
    for c in cs:
        if c.bound:
            out.append('%s is proved under a bound: %s' % (c.name, c.bound))
    bounded = [c.name for c in cs if not c.symbolic]
    if bounded:
        out.append('bounded only (random concrete runs, never counted as proved): ' + ', '.join(bounded))
    return out


def level_of(prop, cs):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'proof' if any(c.symbolic for c in cs) else 'exploration'


if __name__ == '__main__':
    sys.exit(main())
