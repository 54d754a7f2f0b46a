"""Concrete runs of contracts on the real code (CPython)."""
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings
from . import api

TRIAL_S = 20


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang('no result after %d s' % TRIAL_S)


def run_once(contract, seed, forced=None):
    """('ok'|'discard'|'fail', info)"""
    ctx = api.Ctx(seed, forced)
    api._ctx[0] = ctx
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            contract.fn()
    except api.Discard:
        return 'discard', ctx, None
    except api.ContractFailure as e:
        return 'fail', ctx, dict(label=e.label, detail=e.detail, traceback=traceback.format_exc()[-3000:])
    except Hang as e:
        return 'fail', ctx, dict(label='terminates', detail=str(e), traceback=traceback.format_exc()[-3000:])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'fail', ctx, dict(label='no other exception escapes', detail='%s: %s' % (type(e).__name__, e),
                                 traceback=traceback.format_exc()[-3000:])
    finally:
        api.undo_stand_ins(ctx)
    return 'ok', ctx, None


def reset_world():
    """Undo process-wide state a trial may leave behind (registries of scratch classes)."""
    import properties
    from properties.base import instance as _i        # noqa
    for cls in (properties.HasProperties,):
        reg = cls.__dict__.get('_REGISTRY')
        if isinstance(reg, dict):
            for k in list(reg):
                if reg[k].__module__.startswith('contracts'):
                    del reg[k]


def run(contract, seed, trials, budget_s, known=(), stop_after=1):
    t0 = time.time()
    out = dict(contract=contract.name, evaluations=0, discarded=0, distinct=set(), labels={}, covers=set(),
               failures=[], samples=[], known=[])
    old = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    with tempfile.TemporaryDirectory(prefix='pyvc') as tmp:
        os.chdir(tmp)
        try:
            for i in range(trials):
                if time.time() - t0 > budget_s:
                    break
                s = '%s:%s:%d' % (seed, contract.name, i)
                signal.alarm(TRIAL_S)
                try:
                    st, ctx, info = run_once(contract, s)
                finally:
                    signal.alarm(0)
                for k, v in ctx.labels.items():
                    out['labels'][k] = out['labels'].get(k, 0) + v
                out['covers'] |= ctx.covers
                if st == 'discard':
                    out['discarded'] += 1
                    continue
                out['evaluations'] += 1
                key = repr((ctx.drawn, ctx.bools))
                if ctx.labels or ctx.covers:
                    out['distinct'].add(hash(key))
                if len(out['samples']) < 3 and ctx.drawn:
                    out['samples'].append(dict(seed=s, drawn=[list(d) for d in ctx.drawn[:8]]))
                if st == 'fail':
                    f = dict(info, contract=contract.name, seed=s, forced={},
                             drawn=[list(d) for d in ctx.drawn], kind='concrete')
                    k = match_known(f, known)
                    if k is not None:
                        if k not in out['known']:
                            out['known'].append(k)
                        continue
                    out['failures'].append(f)
                    if len(out['failures']) >= stop_after:
                        break
        finally:
            os.chdir(old)
    out['distinct'] = len(out['distinct'])
    out['covers'] = sorted(out['covers'])
    out['wall'] = time.time() - t0
    return out


def match_known(f, known):
    for k in known:
        if k.get('contract') == f['contract'] and k.get('label') == f['label'] and \
                k.get('match', '') in (f.get('detail') or ''):
            return k.get('what', f['label'])
    return None


def replay_model(contract, inputs, tries=40):
    """Run the contract with the verifier's model as input."""
    signal.signal(signal.SIGALRM, _alarm)
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='pyvc') as tmp:
        os.chdir(tmp)
        try:
            forced = {}
            for n, d in inputs.items():
                if 'choice' in d:
                    forced[n] = {'choice': d['choice']}
                elif d.get('py') is not None:
                    forced[n] = d['py']
            for i in range(tries):
                signal.alarm(TRIAL_S)
                try:
                    st, ctx, info = run_once(contract, 'model:%d' % i, forced)
                finally:
                    signal.alarm(0)
                if st == 'fail':
                    return dict(info, contract=contract.name, seed='model:%d' % i, forced=forced,
                                drawn=[list(d) for d in ctx.drawn], kind='concrete')
        finally:
            os.chdir(old)
    return None
